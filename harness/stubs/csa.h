/* stand-in for libcsa's header (the library is not installed here) */
#if !defined(_CSA_H)
#define _CSA_H
#if !defined(_STRUCT_POINT)
#define _STRUCT_POINT
typedef struct {
    double x;
    double y;
    double z;
} point;
#endif
struct csa;
typedef struct csa csa;
extern char* csa_version;
csa* csa_create(void);
void csa_destroy(csa* a);
void csa_addpoints(csa* a, int n, point points[]);
void csa_calculatespline(csa* a);
void csa_approximatepoint(csa* a, point* p);
#endif
