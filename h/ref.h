// Independent reference for thin-shell kinematics and plane-stress constitutive laws.
// Nothing here uses gsKLShell; geometry derivatives come from the G+Smo core.
#pragma once
#include <gismo.h>
#include <functional>
#include <array>

namespace ref {
using namespace gismo;
typedef long double R;
struct V3 { R v[3]; R & operator[](int i){return v[i];} R operator[](int i) const {return v[i];} };
inline R dot(const V3&a,const V3&b){return a[0]*b[0]+a[1]*b[1]+a[2]*b[2];}
inline V3 cross(const V3&a,const V3&b){return V3{{a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}};}
inline V3 operator+(const V3&a,const V3&b){return V3{{a[0]+b[0],a[1]+b[1],a[2]+b[2]}};}
inline V3 operator-(const V3&a,const V3&b){return V3{{a[0]-b[0],a[1]-b[1],a[2]-b[2]}};}
inline V3 operator*(R s,const V3&b){return V3{{s*b[0],s*b[1],s*b[2]}};}
struct M2 { R a[2][2]; R & operator()(int i,int j){return a[i][j];} R operator()(int i,int j) const {return a[i][j];} };
inline M2 mul(const M2&x,const M2&y){M2 r;for(int i=0;i<2;i++)for(int j=0;j<2;j++)r(i,j)=x(i,0)*y(0,j)+x(i,1)*y(1,j);return r;}
inline M2 tr(const M2&x){return M2{{{x(0,0),x(1,0)},{x(0,1),x(1,1)}}};}
inline R  det(const M2&x){return x(0,0)*x(1,1)-x(0,1)*x(1,0);}
inline M2 inv(const M2&x){R d=det(x);return M2{{{x(1,1)/d,-x(0,1)/d},{-x(1,0)/d,x(0,0)/d}}};}
inline M2 lin(R a,const M2&x,R b,const M2&y){M2 r;for(int i=0;i<2;i++)for(int j=0;j<2;j++)r(i,j)=a*x(i,j)+b*y(i,j);return r;}
inline M2 chol(const M2&g){M2 l;l(0,0)=std::sqrt(g(0,0));l(0,1)=0;l(1,0)=g(1,0)/l(0,0);l(1,1)=std::sqrt(g(1,1)-l(1,0)*l(1,0));return l;}

// symmetric 2x2 eigen decomposition: w ascending, q columns
inline void eig2(const M2&c, R w[2], M2&q)
{
    R m=(c(0,0)+c(1,1))/2, d=(c(0,0)-c(1,1))/2, o=c(0,1), r=std::sqrt(d*d+o*o);
    w[0]=m-r; w[1]=m+r;
    R th=0.5L*std::atan2(o,d); // direction of the larger eigenvalue
    R cs=std::cos(th), sn=std::sin(th);
    q(0,1)=cs; q(1,1)=sn; q(0,0)=-sn; q(1,0)=cs;
}

struct Surf { V3 x,a1,a2,n,n1,n2; M2 A,B,N3; R J; };   // N3: third fundamental form
inline Surf surf(const gsFunction<real_t> & g, const gsMatrix<real_t> & u, int dim)
{
    Surf s; gsMatrix<real_t> x,d,d2; g.eval_into(u,x); g.deriv_into(u,d);
    for(int i=0;i<3;i++){ s.x[i]=i<dim?x(i,0):0; s.a1[i]=i<dim?d(2*i,0):0; s.a2[i]=i<dim?d(2*i+1,0):0; }
    s.A=M2{{{dot(s.a1,s.a1),dot(s.a1,s.a2)},{dot(s.a1,s.a2),dot(s.a2,s.a2)}}};
    V3 c=cross(s.a1,s.a2); s.J=std::sqrt(dot(c,c)); s.n=(1/s.J)*c;
    s.B=M2{{{0,0},{0,0}}}; s.N3=s.B; s.n1=s.n2=V3{{0,0,0}};
    if (dim==3)
    {
        g.deriv2_into(u,d2); V3 a11,a22,a12;
        for(int i=0;i<3;i++){ a11[i]=d2(3*i,0); a22[i]=d2(3*i+1,0); a12[i]=d2(3*i+2,0); }
        s.B=M2{{{dot(a11,s.n),dot(a12,s.n)},{dot(a12,s.n),dot(a22,s.n)}}};
        M2 Ac=inv(s.A); M2 W=mul(s.B,Ac); // b_a^b
        s.n1=(-W(0,0))*s.a1+(-W(0,1))*s.a2; s.n2=(-W(1,0))*s.a1+(-W(1,1))*s.a2;
        s.N3=M2{{{dot(s.n1,s.n1),dot(s.n1,s.n2)},{dot(s.n1,s.n2),dot(s.n2,s.n2)}}};
    }
    return s;
}
inline M2 metric(const Surf&s, R zeta){ M2 r; for(int i=0;i<2;i++)for(int j=0;j<2;j++) r(i,j)=s.A(i,j)-2*zeta*s.B(i,j)+zeta*zeta*s.N3(i,j); return r; }

// ---- isotropic hyperelastic energies in principal stretches
struct Law {
    int mat=1; bool comp=false;              // 1 NH, 2 NH_ext, 3 MR, 4 OG
    R E=1,nu=0,ratio=1; std::vector<std::pair<R,R> > og; // (mu_i, alpha_i)
    R mu() const {return E/(2*(1+nu));}
    R K()  const {return E/(3-6*nu);}
    R lam()const {return E*nu/((1+nu)*(1-2*nu));}
    // dW/dlambda_a for the 3D energy
    void d3(const R l[3], R g[3]) const
    {
        R J=l[0]*l[1]*l[2];
        if (!comp)
        {   // incompressible: without pressure
            for(int a=0;a<3;a++){
                if(mat==1) g[a]=mu()*l[a];
                else if(mat==3){ R c2=mu()/(ratio+1),c1=ratio*c2; R I1=l[0]*l[0]+l[1]*l[1]+l[2]*l[2];
                    g[a]=c1*l[a]+c2*(I1-l[a]*l[a])*l[a]; }
                else { g[a]=0; for(auto&p:og) g[a]+=p.first*std::pow(l[a],p.second-1); }
            }
            return;
        }
        R I1=l[0]*l[0]+l[1]*l[1]+l[2]*l[2], I2=0; for(int a=0;a<3;a++) I2+= (J/l[a])*(J/l[a]);
        R J23=std::pow(J,-2.0L/3), J43=J23*J23;
        for(int a=0;a<3;a++){
            R dI1=2*l[a], dI2=2*l[a]*(I1-l[a]*l[a]);
            R dU=K()/4*(2*J-2/J)*J/l[a];
            if(mat==1) g[a]=mu()/2*(J23*dI1-2.0L/3*J23*I1/l[a])+dU;
            else if(mat==2) g[a]=mu()/2*dI1-mu()/l[a]+lam()/4*(2*J-2/J)*J/l[a];
            else if(mat==3){ R c2=mu()/(ratio+1),c1=ratio*c2;
                g[a]=c1/2*(J23*dI1-2.0L/3*J23*I1/l[a])+c2/2*(J43*dI2-4.0L/3*J43*I2/l[a])+dU; }
            else { g[a]=dU; for(auto&p:og){ R Jb=std::pow(J,-p.second/3); R s=0; for(int b=0;b<3;b++) s+=std::pow(l[b],p.second);
                g[a]+=p.first*Jb*(std::pow(l[a],p.second-1)-s/(3*l[a])); } }
        }
    }
    R lam3(R l1, R l2) const
    {
        if (!comp) return 1/(l1*l2);
        // dW/dl3 = 0 : bracketed Newton/bisection, the root is unique in the ranges drawn
        auto f=[&](R l3){ R l[3]={l1,l2,l3},g[3]; d3(l,g); return g[2]; };
        R x=std::pow(l1*l2,-nu/(1-nu)); if(!(x>0)) x=1; 
        R lo=x, hi=x; int it=0;
        if (f(x)>0) { while(f(lo)>0 && it++<200) lo/=1.05L; } else { while(f(hi)<0 && it++<200) hi*=1.05L; }
        if (it>=200) return -1;
        for(int k=0;k<200;k++){ R m=(lo+hi)/2; if (m==lo||m==hi) break; if (f(m)>0) hi=m; else lo=m; }
        return (lo+hi)/2;
    }
    // does plain Newton on S33(c33)=0, started from the isochoric c33, converge quickly and with positive iterates?
    bool newtonOK(R l1,R l2) const
    {
        if(!comp) return true;
        auto f=[&](R c){ R l3=std::sqrt(c); R l[3]={l1,l2,l3},g[3]; d3(l,g); return g[2]/l3; };
        R c=1/(l1*l1*l2*l2);
        for(int it=0;it<12;it++){ R h=1e-5L*c, df=(f(c+h)-f(c-h))/(2*h); if(!(df>0)) return false; R d=-f(c)/df; c+=d; if(!(c>0.02L)||!(c<50)) return false; if(std::abs(d)<1e-11L) return true; }
        return false;
    }
    // in-plane principal PK2 stresses
    void S12(R l1,R l2,R S[2],R&l3) const
    {
        l3=lam3(l1,l2); R l[3]={l1,l2,l3},g[3]; d3(l,g);
        if (comp) { S[0]=g[0]/l1; S[1]=g[1]/l2; }
        else { R p=g[2]*l3; S[0]=(g[0]-p/l1)/l1; S[1]=(g[1]-p/l2)/l2; }
    }
};
// PK2 stress (contravariant components) from original and deformed covariant metrics
inline M2 stress(const Law&law,const M2&Go,const M2&Gd,R*l3out=0,R*lout=0)
{
    M2 L=chol(Go),Li=inv(L),C=mul(mul(Li,Gd),tr(Li)); R w[2]; M2 q; eig2(C,w,q);
    R S[2],l3; law.S12(std::sqrt(w[0]),std::sqrt(w[1]),S,l3);
    if(l3out)*l3out=l3; if(lout){lout[0]=std::sqrt(w[0]);lout[1]=std::sqrt(w[1]);}
    M2 Sh; for(int i=0;i<2;i++)for(int j=0;j<2;j++) Sh(i,j)=S[0]*q(i,0)*q(j,0)+S[1]*q(i,1)*q(j,1);
    return mul(mul(tr(Li),Sh),Li);
}
inline std::array<R,3> voigt(const M2&s){ return {{s(0,0),s(1,1),(s(0,1)+s(1,0))/2}}; }
// tangent 3x3 (Voigt, engineering shear strain) of stress(): fourth-order central differences in extended precision
template<class F> void tangentFD(F f, const M2&Gd, R D[3][3], R rel=2e-4L)
{
    R h=rel*std::sqrt(std::abs(det(Gd)));
    for(int b=0;b<3;b++)
    {
        auto at=[&](R e){ M2 g=Gd; if(b<2) g(b,b)+=e; else {g(0,1)+=e;g(1,0)+=e;} return voigt(f(g)); };
        auto p1=at(h),m1=at(-h),p2=at(2*h),m2=at(-2*h);
        for(int a=0;a<3;a++){ R d=(8*(p1[a]-m1[a])-(p2[a]-m2[a]))/(12*h); D[a][b]= b<2?2*d:d; }
    }
}
// linear plane-stress tensor on a metric, Voigt
inline void linearC(R E,R nu,const M2&Acon,R C[3][3])
{
    R mu=E/(2*(1+nu)), lam=E*nu/((1+nu)*(1-2*nu)); R c=2*lam*mu/(lam+2*mu);
    if (nu==0.5L) c=2*mu;
    auto t=[&](int i,int j,int k,int l){ return c*Acon(i,j)*Acon(k,l)+mu*(Acon(i,k)*Acon(j,l)+Acon(i,l)*Acon(j,k)); };
    int I[3][2]={{0,0},{1,1},{0,1}};
    for(int a=0;a<3;a++)for(int b=0;b<3;b++) C[a][b]=t(I[a][0],I[a][1],I[b][0],I[b][1]);
}
// Gauss-Legendre on [-1,1]
inline void gauss(int n,std::vector<R>&x,std::vector<R>&w)
{
    x.resize(n);w.resize(n);
    for(int i=0;i<n;i++){ R z=std::cos(3.14159265358979323846264L*(i+0.75L)/(n+0.5L)),pp=1; 
        for(int it=0;it<100;it++){ R p1=1,p2=0; for(int j=0;j<n;j++){R p3=p2;p2=p1;p1=((2*j+1)*z*p2-j*p3)/(j+1);} pp=n*(z*p1-p2)/(z*z-1); R dz=p1/pp; z-=dz; if(std::abs(dz)<1e-18L) break; }
        x[i]=z;w[i]=2/((1-z*z)*pp*pp); }
}
} // namespace ref
