// Items, contents and observations of environments, through the public API only.
#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP
#include "rt.hpp"
#include <envire/Core.hpp>
#include <envire/core/Serialization.hpp>
#include <envire/core/Event.hpp>
#include <envire/core/EventHandler.hpp>
#include <envire/maps/Pointcloud.hpp>
#include <envire/maps/TriMesh.hpp>
#include <envire/maps/LaserScan.hpp>
#include <envire/maps/Featurecloud.hpp>
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <envire/maps/TraversabilityGrid.hpp>
#include <envire/maps/MLSGrid.hpp>
#include <envire/maps/MLSMap.hpp>
#include <envire/maps/MapSegment.hpp>

namespace envire
{
// metadata type whose instances are counted
struct Probe
{
    static long live;
    int v;
    Probe() : v( 0 ) { live++; }
    Probe( const Probe& o ) : v( o.v ) { live++; }
    ~Probe() { live--; v = -77; }
};
// user-defined item classes, as a user of the library would write them
class SimLayer : public Layer
{
    ENVIRONMENT_ITEM( SimLayer )
public:
    std::string prop, payload; double num;
    SimLayer() : Layer( Environment::ITEM_NOT_ATTACHED ), num( 0 ) {}
    void serialize( Serialization& so );
    void unserialize( Serialization& so );
};
class SimMap : public Map<2>
{
    ENVIRONMENT_ITEM( SimMap )
public:
    std::string prop, payload;
    SimMap() : Map<2>( Environment::ITEM_NOT_ATTACHED ) {}
    Extents getExtents() const { return Extents(); }
    void serialize( Serialization& so );
    void unserialize( Serialization& so );
};
struct OpRun { static long total; };
#define SIM_OPERATOR( NAME, IN, OUT ) \
class NAME : public Operator { ENVIRONMENT_ITEM( NAME ) \
public: long runs; NAME() : Operator( IN, OUT ), runs( 0 ) {} \
    bool updateAll() { runs++; OpRun::total++; return true; } };
SIM_OPERATOR( SimOp, 0, 0 )
SIM_OPERATOR( SimOp1, 1, 1 )
SIM_OPERATOR( SimOp2, 2, 1 )
}

namespace sim
{
using namespace envire;
enum Kind
{
    K_FRAME, K_CLOUD, K_MESH, K_SCAN, K_ELEV, K_DIST, K_OCC, K_CONF, K_IMG, K_TRAV, K_MLS,
    K_GS, K_GT, K_GI, K_GJ, K_GD, K_GF, K_GH, K_LAYER, K_MAP, K_OP, K_OP1, K_OP2, K_FEAT, K_MLSMAP, K_SEG, K_COUNT
};
extern const char* kindName[K_COUNT];
inline bool isOpKind( int k ) { return k == K_OP || k == K_OP1 || k == K_OP2; }
inline bool isMapKind( int k ) { return !isOpKind( k ) && k != K_FRAME && k != K_LAYER; }
inline bool isLayerKind( int k ) { return !isOpKind( k ) && k != K_FRAME; }
int opArityIn( int k );     // 0 = any
int opArityOut( int k );
int kindOf( const EnvironmentItem* item );           // -1 = unknown class

struct Content { int size; bool meta; bool bigText; Content() : size( 1 ), meta( false ), bigText( false ) {} };
EnvironmentItem* makeItem( int kind, Rng& rng, const Content& c );
void mutateItem( EnvironmentItem* item, Rng& rng, const Content& c );    // changes content, does not announce it
std::string randText( Rng& rng, size_t n );
double randNum( Rng& rng );
Transform randTransform( Rng& rng );
SurfacePatch randPatch( Rng& rng );

enum { F_PERSIST = 1, F_FULL = 2, F_META = 4 };
typedef std::map<std::string,std::string> Facts;
void digestItem( const EnvironmentItem* item, Facts& out, const std::string& prefix, int mode );
uint64_t digestHash( const EnvironmentItem* item, int mode );
uint64_t patchHash( const SurfacePatch& p );

// Complete observation of an environment. Every pointer returned by a query
// is checked against the attached items before it is used.
struct Obs { int content; bool labels, ops, deep; Obs() : content( F_PERSIST ), labels( true ), ops( true ), deep( true ) {} };
void observe( Environment* env, Facts& out, const Obs& o = Obs() );
// first difference as text, empty when equal
std::string diffFacts( const Facts& want, const Facts& got, const char* wantName, const char* gotName );
uint64_t hashFacts( const Facts& f );
Facts onlyKeys( const Facts& f, const char* const* prefixes );   // keep keys with these first words (NULL-terminated)
bool structuralKey( const std::string& k );                     // item, root, parent, frame, layer

// leak detection: live blocks that are items, metadata holders or environments
void leakBegin();
std::string leakCheck();                                         // description of what is still alive, empty = nothing
size_t liveObjects();
}
#endif
