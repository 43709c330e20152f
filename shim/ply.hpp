// Stand-in for libply (stub): the callback interface of ply::ply_parser with a
// small parser for ascii headers and host-endian binary bodies.
#ifndef SHIM_PLY_HPP
#define SHIM_PLY_HPP
#include <tr1/functional>
#include <tr1/tuple>
#include <istream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <stdint.h>
namespace ply
{
    typedef int8_t int8; typedef int16_t int16; typedef int32_t int32;
    typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32;
    typedef float float32; typedef double float64;
    enum format_type { ascii_format, binary_little_endian_format, binary_big_endian_format, unknown };
    enum byte_order { little_endian_byte_order, big_endian_byte_order };
    static const byte_order host_byte_order = little_endian_byte_order;

    namespace detail
    {
	template<class T> struct SDef { std::tr1::function<std::tr1::function<void (T)> (const std::string&, const std::string&)> f; };
	template<class S, class T> struct LDef
	{
	    typedef std::tr1::tuple<std::tr1::function<void (S)>, std::tr1::function<void (T)>, std::tr1::function<void ()> > R;
	    std::tr1::function<R (const std::string&, const std::string&)> f;
	};
	struct SDefs : SDef<int8>, SDef<int16>, SDef<int32>, SDef<uint8>, SDef<uint16>, SDef<uint32>, SDef<float32>, SDef<float64> {};
	template<class S> struct LDefsOf : LDef<S,int8>, LDef<S,int16>, LDef<S,int32>, LDef<S,uint8>, LDef<S,uint16>, LDef<S,uint32>, LDef<S,float32>, LDef<S,float64> {};
	struct LDefs : LDefsOf<uint8>, LDefsOf<uint16>, LDefsOf<uint32> {};
    }
    namespace callback_types
    {
	typedef detail::SDefs scalar_property_definition_callbacks_type;
	typedef detail::LDefs list_property_definition_callbacks_type;
    }
    template<class T> std::tr1::function<std::tr1::function<void (T)> (const std::string&, const std::string&)>& at( detail::SDefs& d )
    { return static_cast< detail::SDef<T>& >( d ).f; }
    template<class S, class T> std::tr1::function<typename detail::LDef<S,T>::R (const std::string&, const std::string&)>& at( detail::LDefs& d )
    { return static_cast< detail::LDef<S,T>& >( d ).f; }

    class ply_parser
    {
    public:
	typedef int flags_type;
	explicit ply_parser( flags_type ) : bad( false ) {}
	template<class F> void info_callback( F f ) { info = f; }
	template<class F> void warning_callback( F f ) { warn = f; }
	template<class F> void error_callback( F f ) { err = f; }
	template<class F> void magic_callback( F f ) { magic = f; }
	template<class F> void format_callback( F f ) { fmt = f; }
	template<class F> void comment_callback( F f ) { comment = f; }
	template<class F> void obj_info_callback( F f ) { objinfo = f; }
	template<class F> void end_header_callback( F f ) { endh = f; }
	void scalar_property_definition_callbacks( const detail::SDefs& d ) { sd = d; }
	void list_property_definition_callbacks( const detail::LDefs& d ) { ld = d; }

	bool parse( std::istream& is )
	{
	    std::string line; size_t no = 1;
	    if( !std::getline( is, line ) || line != "ply" ) return fail( no, "parse error" );
	    if( magic ) magic();
	    struct Elem { std::string name; size_t count; std::vector< std::tr1::function<bool (std::istream&)> > props; };
	    std::vector<Elem> elems;
	    bool done = false, haveFmt = false;
	    while( std::getline( is, line ) )
	    {
		no++;
		std::istringstream ss( line );
		std::string kw; ss >> kw;
		if( kw == "format" )
		{
		    std::string f, v; ss >> f >> v;
		    if( f != "binary_little_endian" || v != "1.0" ) return fail( no, "unsupported format" );
		    haveFmt = true;
		    if( fmt ) fmt( binary_little_endian_format, v );
		}
		else if( kw == "comment" ) { if( comment ) comment( line ); }
		else if( kw == "obj_info" ) { if( objinfo ) objinfo( line ); }
		else if( kw == "element" )
		{
		    Elem e; 
		    if( !(ss >> e.name >> e.count) ) return fail( no, "parse error" );
		    elems.push_back( e );
		}
		else if( kw == "property" )
		{
		    if( elems.empty() ) return fail( no, "parse error" );
		    std::string t; ss >> t;
		    std::tr1::function<bool (std::istream&)> p;
		    if( t == "list" )
		    {
			std::string st, vt, name;
			if( !(ss >> st >> vt >> name) ) return fail( no, "parse error" );
			if( st == "uchar" || st == "uint8" ) p = mkList<uint8>( vt, elems.back().name, name );
			else if( st == "ushort" || st == "uint16" ) p = mkList<uint16>( vt, elems.back().name, name );
			else if( st == "uint" || st == "uint32" ) p = mkList<uint32>( vt, elems.back().name, name );
		    }
		    else
		    {
			std::string name;
			if( !(ss >> name) ) return fail( no, "parse error" );
			p = mkScalar( t, elems.back().name, name );
		    }
		    if( !p ) return fail( no, "parse error: unknown property type" );
		    elems.back().props.push_back( p );
		}
		else if( kw == "end_header" ) { done = true; break; }
		else return fail( no, "parse error: unexpected keyword" );
	    }
	    if( !done || !haveFmt ) return fail( no, "parse error: incomplete header" );
	    if( endh && !endh() ) return true;
	    for( size_t e = 0; e < elems.size(); e++ )
		for( size_t i = 0; i < elems[e].count && !elems[e].props.empty(); i++ )
		    for( size_t k = 0; k < elems[e].props.size(); k++ )
			if( !elems[e].props[k]( is ) ) return fail( no, "parse error: unexpected end of file" );
	    return true;
	}
    private:
	bool fail( size_t no, const char* m ) { if( err ) err( no, std::string( m ) ); return false; }
	template<class T> struct SRead
	{
	    std::tr1::function<void (T)> f;
	    bool operator()( std::istream& is ) { T v; if( !is.read( (char*)&v, sizeof v ) ) return false; if( f ) f( v ); return true; }
	};
	template<class S, class T> struct LRead
	{
	    typename detail::LDef<S,T>::R r;
	    bool operator()( std::istream& is )
	    {
		S n; if( !is.read( (char*)&n, sizeof n ) ) return false;
		if( std::tr1::get<0>( r ) ) std::tr1::get<0>( r )( n );
		for( S i = 0; i < n; i++ ) { T v; if( !is.read( (char*)&v, sizeof v ) ) return false; if( std::tr1::get<1>( r ) ) std::tr1::get<1>( r )( v ); }
		if( std::tr1::get<2>( r ) ) std::tr1::get<2>( r )();
		return true;
	    }
	};
	template<class T> std::tr1::function<bool (std::istream&)> s1( const std::string& e, const std::string& n )
	{ SRead<T> r; if( at<T>( sd ) ) r.f = at<T>( sd )( e, n ); return r; }
	std::tr1::function<bool (std::istream&)> mkScalar( const std::string& t, const std::string& e, const std::string& n )
	{
	    if( t == "char" || t == "int8" ) return s1<int8>( e, n );
	    if( t == "short" || t == "int16" ) return s1<int16>( e, n );
	    if( t == "int" || t == "int32" ) return s1<int32>( e, n );
	    if( t == "uchar" || t == "uint8" ) return s1<uint8>( e, n );
	    if( t == "ushort" || t == "uint16" ) return s1<uint16>( e, n );
	    if( t == "uint" || t == "uint32" ) return s1<uint32>( e, n );
	    if( t == "float" || t == "float32" ) return s1<float32>( e, n );
	    if( t == "double" || t == "float64" ) return s1<float64>( e, n );
	    return std::tr1::function<bool (std::istream&)>();
	}
	template<class S, class T> std::tr1::function<bool (std::istream&)> l1( const std::string& e, const std::string& n )
	{ LRead<S,T> r; if( (at<S,T>( ld )) ) r.r = at<S,T>( ld )( e, n ); return r; }
	template<class S> std::tr1::function<bool (std::istream&)> mkList( const std::string& t, const std::string& e, const std::string& n )
	{
	    if( t == "char" || t == "int8" ) return l1<S,int8>( e, n );
	    if( t == "short" || t == "int16" ) return l1<S,int16>( e, n );
	    if( t == "int" || t == "int32" ) return l1<S,int32>( e, n );
	    if( t == "uchar" || t == "uint8" ) return l1<S,uint8>( e, n );
	    if( t == "ushort" || t == "uint16" ) return l1<S,uint16>( e, n );
	    if( t == "uint" || t == "uint32" ) return l1<S,uint32>( e, n );
	    if( t == "float" || t == "float32" ) return l1<S,float32>( e, n );
	    if( t == "double" || t == "float64" ) return l1<S,float64>( e, n );
	    return std::tr1::function<bool (std::istream&)>();
	}
	bool bad;
	detail::SDefs sd; detail::LDefs ld;
	std::tr1::function<void (size_t, const std::string&)> info, warn, err;
	std::tr1::function<void ()> magic;
	std::tr1::function<void (format_type, const std::string&)> fmt;
	std::tr1::function<void (const std::string&)> comment, objinfo;
	std::tr1::function<bool ()> endh;
    };
}
#endif
