// Binary event channels between environments.
#ifndef SIM_WIRE_HPP
#define SIM_WIRE_HPP
#include "engine.hpp"

namespace sim
{
typedef std::vector<BinaryEvent> Batch;
inline std::string showEv( const BinaryEvent& e ) { return fmt( "type %d op %d %s %s %s", (int)e.type, (int)e.operation, e.id_a.c_str(), e.id_b.c_str(), e.className.c_str() ); }
// receives binary events from an environment, as a user of the library would
struct Channel : public SynchronizationEventHandler
{
    Batch got; std::function<void(const Batch&)> tap;
    void handle( std::vector<BinaryEvent>& msgs )
    {
	HarnessScope hs;
	got.insert( got.end(), msgs.begin(), msgs.end() );
	if( tap ) tap( msgs );
    }
    using SynchronizationEventHandler::handle;
};
// what a replica has to reproduce
inline Facts wireFacts( Environment* env )
{
    Facts f; Obs o; o.content = F_PERSIST; o.labels = false; o.ops = false; o.deep = true;
    observe( env, f, o );
    return f;
}
// transport: events arrive as new objects
inline Batch transport( const Batch& b, bool viaMove )
{
    Batch r;
    for( size_t i=0;i<b.size();i++ )
    {
	if( viaMove ) { BinaryEvent src( b[i] ); r.push_back( BinaryEvent() ); r.back().move( src ); }
	else r.push_back( b[i] );
    }
    return r;
}
}
#endif
