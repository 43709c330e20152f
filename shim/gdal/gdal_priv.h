// Stand-in for GDAL (stub): a GTiff-like raster container kept as one flat
// file, written and read through stdio so that the simulated disk sees it.
#ifndef SHIM_GDAL_PRIV_H
#define SHIM_GDAL_PRIV_H
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
enum GDALDataType { GDT_Unknown = 0, GDT_Byte = 1, GDT_UInt16 = 2, GDT_Int16 = 3, GDT_UInt32 = 4, GDT_Int32 = 5, GDT_Float32 = 6, GDT_Float64 = 7 };
enum GDALRWFlag { GF_Read = 0, GF_Write = 1 };
enum GDALAccess { GA_ReadOnly = 0, GA_Update = 1 };
enum CPLErr { CE_None = 0, CE_Debug = 1, CE_Warning = 2, CE_Failure = 3, CE_Fatal = 4 };
typedef void* GDALDatasetH;
inline CPLErr& shimLastError() { static CPLErr e = CE_None; return e; }
inline void CPLErrorReset() { shimLastError() = CE_None; }
inline CPLErr CPLGetLastErrorType() { return shimLastError(); }
inline int shimTypeSize( int t )
{
    switch( t ) { case GDT_Byte: return 1; case GDT_UInt16: case GDT_Int16: return 2; case GDT_UInt32: case GDT_Int32: case GDT_Float32: return 4; case GDT_Float64: return 8; }
    return 0;
}
class GDALDataset;
class GDALRasterBand
{
    friend class GDALDataset;
    GDALDataset* ds; int idx;
public:
    GDALRasterBand( GDALDataset* d, int i ) : ds( d ), idx( i ) {}
    inline GDALDataType GetRasterDataType() const;
    inline double GetNoDataValue( int* has ) const;
    inline CPLErr SetNoDataValue( double v );
    inline CPLErr RasterIO( GDALRWFlag rw, int xo, int yo, int xs, int ys, void* data, int bx, int by, GDALDataType t, int pixelSpace, int lineSpace );
    inline int GetXSize() const;
    inline int GetYSize() const;
};
class GDALDataset
{
public:
    struct Head { char magic[8]; int32_t w, h, bands, type; double geo[6]; int32_t hasGeo, pad; };
    struct BandHead { double nodata; int32_t has; int32_t written; };
    Head hd; std::vector<BandHead> bh;
    FILE* f; bool writable;
    std::vector<GDALRasterBand> rb;
    GDALDataset() : f( NULL ), writable( false ) { std::memset( &hd, 0, sizeof hd ); }
    ~GDALDataset() { if( f ) std::fclose( f ); }
    void mk() { for( int i = 0; i < hd.bands; i++ ) rb.push_back( GDALRasterBand( this, i ) ); }
    long bandOff( int i ) const { return sizeof( Head ) + (long)bh.size() * sizeof( BandHead ) + (long)i * hd.w * hd.h * shimTypeSize( hd.type ); }
    bool flushHead()
    {
	if( std::fseek( f, 0, SEEK_SET ) ) return false;
	if( std::fwrite( &hd, sizeof hd, 1, f ) != 1 ) return false;
	if( !bh.empty() && std::fwrite( bh.data(), sizeof( BandHead ), bh.size(), f ) != bh.size() ) return false;
	return std::fflush( f ) == 0;
    }
    int GetRasterXSize() const { return hd.w; }
    int GetRasterYSize() const { return hd.h; }
    int GetRasterCount() const { return hd.bands; }
    GDALRasterBand* GetRasterBand( int i ) { return i >= 1 && i <= (int)rb.size() ? &rb[i-1] : NULL; }
    CPLErr SetGeoTransform( double* g ) { std::memcpy( hd.geo, g, sizeof hd.geo ); hd.hasGeo = 1; return CE_None; }
    CPLErr GetGeoTransform( double* g ) { std::memcpy( g, hd.geo, sizeof hd.geo ); return hd.hasGeo ? CE_None : CE_Failure; }
    CPLErr SetProjection( const char* ) { return CE_None; }
};
GDALDataType GDALRasterBand::GetRasterDataType() const { return (GDALDataType)ds->hd.type; }
int GDALRasterBand::GetXSize() const { return ds->hd.w; }
int GDALRasterBand::GetYSize() const { return ds->hd.h; }
double GDALRasterBand::GetNoDataValue( int* has ) const { if( has ) *has = ds->bh[idx].has; return ds->bh[idx].nodata; }
CPLErr GDALRasterBand::SetNoDataValue( double v ) { ds->bh[idx].has = 1; ds->bh[idx].nodata = v; return CE_None; }
CPLErr GDALRasterBand::RasterIO( GDALRWFlag rw, int, int, int xs, int ys, void* data, int, int, GDALDataType t, int, int lineSpace )
{
    GDALDataset& d = *ds;
    const int es = shimTypeSize( t );
    if( t != d.hd.type || xs != d.hd.w || ys != d.hd.h ) return CE_Failure;
    const long ls = lineSpace ? lineSpace : (long)xs * es;
    if( rw == GF_Write )
    {
	d.bh[idx].written = 1;
	if( !d.flushHead() ) return CE_Failure;
	if( std::fseek( d.f, d.bandOff( idx ), SEEK_SET ) ) return CE_Failure;
	for( int y = 0; y < ys; y++ )
	    if( xs && std::fwrite( (char*)data + y * ls, es, xs, d.f ) != (size_t)xs ) return CE_Failure;
	return std::fflush( d.f ) == 0 ? CE_None : CE_Failure;
    }
    if( std::fseek( d.f, d.bandOff( idx ), SEEK_SET ) ) return CE_Failure;
    for( int y = 0; y < ys; y++ )
	if( xs && std::fread( (char*)data + y * ls, es, xs, d.f ) != (size_t)xs ) return CE_Failure;
    return CE_None;
}
class GDALDriver
{
public:
    GDALDataset* Create( const char* path, int w, int h, int bands, GDALDataType t, char** )
    {
	if( w <= 0 || h <= 0 ) return NULL;
	try          // GDAL reports the lack of memory by returning nothing
	{
	    std::unique_ptr<GDALDataset> d( new GDALDataset() );
	    std::memcpy( d->hd.magic, "SIMTIFF1", 8 );
	    d->hd.w = w; d->hd.h = h; d->hd.bands = bands; d->hd.type = t;
	    d->bh.resize( bands ); std::memset( d->bh.data(), 0, bands * sizeof( GDALDataset::BandHead ) );
	    d->writable = true; d->mk();
	    d->f = std::fopen( path, "wb+" );
	    return d->f ? d.release() : NULL;
	}
	catch( std::bad_alloc& ) { return NULL; }
    }
};
class GDALDriverManager
{
public:
    GDALDriver* GetDriverByName( const char* n ) { static GDALDriver d; return std::string( n ) == "GTiff" ? &d : NULL; }
};
inline GDALDriverManager* GetGDALDriverManager() { static GDALDriverManager m; return &m; }
inline void GDALAllRegister() {}
inline void* GDALOpen( const char* path, GDALAccess )
{
    try {
    std::unique_ptr<GDALDataset> d( new GDALDataset() );
    FILE* f = std::fopen( path, "rb" );
    if( !f ) return NULL;
    d->f = f;
    if( std::fread( &d->hd, sizeof d->hd, 1, f ) != 1 || std::memcmp( d->hd.magic, "SIMTIFF1", 8 ) ) return NULL;
    if( d->hd.w <= 0 || d->hd.h <= 0 || d->hd.bands < 0 || d->hd.bands > 64 || d->hd.w > 4096 || d->hd.h > 4096 || !shimTypeSize( d->hd.type ) ) return NULL;
    d->bh.resize( d->hd.bands );
    if( d->hd.bands && std::fread( d->bh.data(), sizeof( GDALDataset::BandHead ), d->hd.bands, f ) != (size_t)d->hd.bands ) return NULL;
    d->mk();
    return d.release();
    } catch( std::bad_alloc& ) { return NULL; }
}
inline void GDALClose( GDALDatasetH h )
{
    GDALDataset* d = (GDALDataset*)h;
    if( d->f && std::fclose( d->f ) ) shimLastError() = CE_Failure;
    d->f = NULL;
    delete d;
}
inline void CPLFree( void* p ) { std::free( p ); }
#endif
