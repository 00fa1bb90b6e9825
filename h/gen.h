// Generators shared by the harnesses
#pragma once
#include "pbt.h"
#include "ref.h"
#include <gsKLShell/gsKLShell.h>
#include <gsKLShell/src/getMaterialMatrix.h>
#include <memory>

namespace gen {
using namespace gismo;
using pbt::Ctx; using pbt::Source;
typedef gsMatrix<real_t> Mat;
using ref::R; using ref::M2; using ref::V3;

inline std::string num(double v){ char b[40]; snprintf(b,40,"%.17g",v); return b; }

// affine scalar field c0 + c . x on physical space, both as closed form and as a core function
struct Field {
    double c0=1, c[3]={0,0,0}; int dim=3;
    double operator()(const V3&x) const { return (double)(c0+c[0]*x[0]+c[1]*x[1]+(dim==3?c[2]*x[2]:0)); }
    std::shared_ptr<gsFunctionSet<real_t> > fn;
    bool constant() const { return c[0]==0&&c[1]==0&&c[2]==0; }
    void make()
    {
        if (constant()) fn.reset(new gsConstantFunction<real_t>(c0,dim));
        else { std::string e=num(c0)+"+("+num(c[0])+")*x+("+num(c[1])+")*y"; if(dim==3) e+="+("+num(c[2])+")*z"; fn.reset(new gsFunctionExpr<real_t>(e,dim)); }
    }
};
// value v at the origin, relative variation up to var per unit length
inline Field field(Source&s,double v,int dim,double var,bool allowVar=true)
{
    Field f; f.c0=v; f.dim=dim;
    if (allowVar && s.flag(40)) for(int i=0;i<dim;i++) f.c[i]=v*s.sym(var);
    f.make(); return f;
}

struct Mat3 { double a[3][3]; };
inline Mat3 rotation(Source&s)
{   // Rodrigues
    double ax[3]={s.sym(1),s.sym(1),s.sym(1)}; double th=s.sym(3.0);
    double n=std::sqrt(ax[0]*ax[0]+ax[1]*ax[1]+ax[2]*ax[2]); if(n<1e-3){ax[0]=0;ax[1]=0;ax[2]=1;n=1;} for(double&x:ax)x/=n;
    double c=std::cos(th),sn=std::sin(th); Mat3 r;
    double K[3][3]={{0,-ax[2],ax[1]},{ax[2],0,-ax[0]},{-ax[1],ax[0],0}};
    for(int i=0;i<3;i++)for(int j=0;j<3;j++){ double kk=0; for(int k=0;k<3;k++)kk+=K[i][k]*K[k][j]; r.a[i][j]=(i==j)+sn*K[i][j]+(1-c)*kk; }
    return r;
}
inline void applyT(Mat&coefs,const double*F,int dim) // rows x -> F x
{
    for(int r=0;r<coefs.rows();r++){ double y[3]={0,0,0}; for(int i=0;i<dim;i++)for(int j=0;j<dim;j++) y[i]+=F[i*dim+j]*coefs(r,j); for(int i=0;i<dim;i++) coefs(r,i)=y[i]; }
}
inline void rotate(Mat&coefs,const Mat3&q){ double F[9]; for(int i=0;i<3;i++)for(int j=0;j<3;j++)F[3*i+j]=q.a[i][j]; applyT(coefs,F,3); }

struct GeoOpt { int minDeg=1, maxDeg=3; int maxKnots=2; bool nurbs=true; double perturb=0.06; double curv=0.5; bool rotate=true; bool flat=false; };

inline gsTensorBSplineBasis<2,real_t> basis(Source&s,const GeoOpt&o)
{
    gsKnotVector<real_t> kv[2];
    for(int i=0;i<2;i++){ int p=s.range(o.minDeg,o.maxDeg); int k=s.range(0,o.maxKnots); kv[i]=gsKnotVector<real_t>(0,1,k,p+1); }
    return gsTensorBSplineBasis<2,real_t>(kv[0],kv[1]);
}
// parametric rectangle -> surface. (ox,oy): offset in the reference plane so that patches can be glued
inline gsGeometry<real_t>::uPtr patch(Source&s,int dim,const GeoOpt&o)
{
    gsTensorBSplineBasis<2,real_t> b=basis(s,o);
    Mat g=b.anchors(); Mat c(g.cols(),dim);
    double lx=s.real(0.5,2.0,1.0), ly=s.real(0.5,2.0,1.0), sh=s.sym(0.6), sh2=s.sym(0.3), tw=s.sym(0.3);
    int shape= dim==3 ? (o.flat?0:s.range(0,3)) : 0; double k1=dim==3&&!o.flat?s.sym(o.curv):0, k2=dim==3&&!o.flat?s.sym(o.curv):0;
    double amp=o.perturb*std::min(lx,ly);
    bool pert=s.flag(60);
    for(int r=0;r<g.cols();r++)
    {
        double x=lx*g(0,r), y=ly*g(1,r);
        double X=x+sh*y+tw*x*y, Y=y+sh2*x, Z=0;
        if(shape==1) Z=0.5*(k1*x*x+k2*y*y); else if(shape==2) Z=k1*x*y; else if(shape==3) Z=0.5*k1*x*x;
        c(r,0)=X; c(r,1)=Y; if(dim==3) c(r,2)=Z;
        if(pert) for(int i=0;i<dim;i++) if(!(o.flat&&i==2)) c(r,i)+=s.sym(amp);
    }
    if (dim==3 && o.rotate && s.flag(70)) { Mat3 q=rotation(s); rotate(c,q); }
    else if (dim==2 && o.rotate && s.flag(50)) { double t=s.sym(3); double F[4]={std::cos(t),-std::sin(t),std::sin(t),std::cos(t)}; applyT(c,F,2); }
    if (o.nurbs && s.flag(25))
    {
        Mat w(g.cols(),1); for(int r=0;r<g.cols();r++) w(r,0)=1+s.real(0,0.4,0.0);
        return gsGeometry<real_t>::uPtr(new gsTensorNurbs<2,real_t>(b.knots(0),b.knots(1),c,w));
    }
    return gsGeometry<real_t>::uPtr(new gsTensorBSpline<2,real_t>(b,c));
}
struct DefOpt { double stretch=0.3, pert=0.05; bool rotate=true; bool allowZero=true; };
// deformed configuration: linear map of the coefficients plus a perturbation of each control point
inline void deform(Source&s,gsGeometry<real_t>&g,int dim,const DefOpt&o,std::ostream&os)
{
    Mat&c=g.coefs(); int mode=s.range(0,7); os<<" def="<<mode;
    double F[9]={0}; for(int i=0;i<dim;i++)F[i*dim+i]=1;
    if (mode==0 && o.allowZero) return;                                       // no deformation
    if (mode==1) { double l=1+s.sym(o.stretch); for(int i=0;i<dim;i++)F[i*dim+i]=l; os<<" dil="<<l; } // equibiaxial
    else if (mode==2) { for(int i=0;i<dim;i++)F[i*dim+i]=1+s.sym(o.stretch)*1e-3; }    // tiny
    else { for(int i=0;i<dim*dim;i++) F[i]+=s.sym(o.stretch)*(i%(dim+1)?0.6:1.0); }
    applyT(c,F,dim);
    if (mode>=4) { const gsHTensorBasis<2,real_t>*hb=dynamic_cast<const gsHTensorBasis<2,real_t>*>(&g.basis()); for(int r=0;r<c.rows();r++){ double a=o.pert; if(hb) a*=std::pow(0.25,(int)hb->levelOf(r)); for(int i=0;i<dim;i++)c(r,i)+=s.sym(a); } }
    if (o.rotate && s.flag(40)) { if(dim==3){Mat3 q=rotation(s);rotate(c,q);} else {double t=s.sym(3);double G[4]={std::cos(t),-std::sin(t),std::sin(t),std::cos(t)};applyT(c,G,2);} 
        for(int i=0;i<dim;i++){double t=s.sym(5); for(int r=0;r<c.rows();r++)c(r,i)+=t;} }
}
inline Mat points(Source&s,int n,double lo=0.02,double hi=0.98)
{ Mat u(2,n); for(int k=0;k<n;k++){ u(0,k)=s.real(lo,hi,0.47); u(1,k)=s.real(lo,hi,0.47);} return u; }
inline Mat zpoints(Source&s,int nz,int n,bool wild=true)
{
    Mat z(nz,n); bool same=!wild||s.flag(50);
    for(int j=0;j<nz;j++){ double v=s.real(-0.5,0.5,0.0); for(int k=0;k<n;k++) z(j,k)= same? v : s.real(-0.5,0.5,0.0); }
    return z;
}
} // namespace gen
