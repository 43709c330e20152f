#ifndef SHIM_OGR_SPATIALREF_H
#define SHIM_OGR_SPATIALREF_H
class OGRSpatialReference
{
public:
    int SetUTM( int, int ) { return 0; }
    int SetWellKnownGeogCS( const char* ) { return 0; }
    int exportToWkt( char** p ) { *p = 0; return 0; }
};
#endif
