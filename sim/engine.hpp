// Executes plans of environment operations and keeps the reference model.
#ifndef SIM_ENGINE_HPP
#define SIM_ENGINE_HPP
#include "world.hpp"
#include <functional>

namespace sim
{
struct Slot
{
    EnvironmentItem* raw; EnvironmentItem::Ptr hold;
    int kind, env; bool dead; uint64_t seq;
    std::string id, label; Facts content; long runs;
    Slot() : raw( 0 ), kind( -1 ), env( -1 ), dead( false ), seq( 0 ), runs( 0 ) {}
};
typedef std::pair<int,int> Link;
struct EnvM
{
    Environment* env; int root; std::string prefix;
    std::map<int,int> parent, frameOf;       // child -> parent frame, map -> frame
    std::set<Link> layer, in, out;           // (parent,child), (operator,layer)
    std::set<std::string> issued;            // automatic ids so far
    EnvM() : env( 0 ), root( -1 ), prefix( "/" ) {}
};
struct Weights
{
    // relative frequency of operation kinds
    int nw, attach, detach, move, hold, frame, layer, place, trans, mod, op, label, prefix, cloneto, envnew, envdel, assign, clone, update, query;
    Weights() : nw( 20 ), attach( 16 ), detach( 10 ), move( 0 ), hold( 4 ), frame( 16 ), layer( 10 ), place( 12 ), trans( 5 ), mod( 5 ), op( 0 ), label( 1 ), prefix( 1 ),
	cloneto( 0 ), envnew( 0 ), envdel( 0 ), assign( 1 ), clone( 1 ), update( 0 ), query( 1 ) {}
};
int runLength( Rng& r, bool thorough, int scale = 100 );
void genOps( Plan& p, Rng& rng, int n, const Weights& w, const std::vector<int>& kinds );

class Engine
{
public:
    const Plan& plan; Content content; bool checkOn;
    bool idVariety;            // relative, absolute, colliding ids
    std::vector<Slot> slots; std::vector<EnvM> envs;
    std::set<EnvironmentItem*> pending;      // items that something else (queued events) may keep alive
    bool keepPending;                        // queued events may hold items: destruction is not checked step by step
    // of the last operation
    bool lastThrew, lastChanged; std::string lastErr; int lastEnv; std::string lastKind; bool exactEvents; int updates; std::vector<std::string> updIds;

    Engine( const Plan& p );
    virtual ~Engine() {}
    int newEnv();
    int adopt( Environment* env, bool checkRunsOnly = false );
    void destroyEnv( int e );
    void finish();                           // release everything, then look for leaks
    bool step( const Op& op );               // false: not an environment operation
    void runAll();                           // all ops of the plan with checks
    virtual void afterStep( const Op& op ) {}
    virtual bool extraOp( const Op& op ) { return false; }
    void check();
    void checkEnv( int e, bool deep = true );
    void expected( int e, Facts& f, bool contents = true, bool labels = true, bool ops = true ) const;
    void checkAlive();
    void publishAudit( int e );              // what a new handler is told is what the model says
    void resync();                           // rebuild the model from the environments (after injected allocation failures)

    int addSlot( EnvironmentItem* it, int kind );
    std::vector<int> sel( std::function<bool(const Slot&,int)> f ) const;
    int slotOf( const EnvironmentItem* p ) const;
    int envOfIndex( long n ) const;          // live environment
    bool isAncestor( int e, int a, int of ) const;
    bool connectedToRoot( int e, int frame ) const;
    Transform rootTransform( int e, int frame, int* top ) const;
    void refreshContent( int s );
protected:
    bool call( std::function<void()> f );    // library call, records an exception
    bool willCollide( const Slot& s, int e ) const;
    std::string wantId( const Slot& s, int e, bool& autoId ) const;
    void attached( int s, int e, const std::string& want, bool autoId );
    bool implicitAttach( int s, int e, bool threw, bool& refused );
    void modelDetach( int s );
    void released( int s );                  // the model no longer needs this item: it has to be gone
    void fail( const std::string& klass, const std::string& msg ) { violation( klass, msg ); }
    void unexpected( const char* what );
    bool opAttach( const Op& ), opDetach( const Op& ), opFrame( const Op& ), opLayer( const Op& ), opPlace( const Op& ), opOper( const Op& ), opClone( const Op& ), opMisc( const Op& );
    Facts transitionBefore; std::string lastGone; int lastGoneKind = -1;
};
}
#endif
