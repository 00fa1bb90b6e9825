// A12: discretisations other than the plain spline basis (mapped bases, separate quadrature basis)
#include "shellgen.h"
using namespace gen;
typedef gsSparseMatrix<real_t> SM;
static const int EX=4;
static double scaleOf(const Mat&K){ return K.size()?K.cwiseAbs().maxCoeff():0; }
static Mat dense(const SM&K){ return K.toDense(); }
// the unknowns of the special space in terms of the coefficients of the plain one: rows = plain DoFs, columns = free unknowns
typedef gsEigen::JacobiSVD<Mat::Base> Eigen_svd;
static Mat bigMap(const Shell&S,const gsDofMapper&plain,const gsDofMapper&sp,const std::vector<Mat>&M,bool perPatch)
{
    Mat P=Mat::Zero(plain.freeSize(),sp.freeSize());
    for(int p=0;p<S.np();p++) for(int c=0;c<S.dim;c++) for(int i=0;i<M[p].rows();i++) for(int j=0;j<M[p].cols();j++) if(M[p](i,j)!=0&&sp.is_free(j,perPatch?p:0,c)) P(plain.index(i,p,c),sp.index(j,perPatch?p:0,c))+=M[p](i,j);
    return P;
}
// compares everything an assembler on the special space gives with the plain one (all coefficients free)
static void compare(Ctx&ctx,const Shell&S,Asm&a,Asm&b,const Mat&P,const std::string&site)
{
    double tol=S.physPL()?1e-4:1e-9; int n=P.cols(); gsDofMapper map=a.getMapper(); ctx.check(a.numDofs()==n,site+"/number of unknowns"); (void)map;
    auto mat=[&](const Mat&A,const Mat&B,const char*w){ ctx.check(A.rows()==n&&A.cols()==n,site+"/size of "+w); Mat C=P.transpose()*B*P; Mat D=P.cwiseAbs().transpose()*B.cwiseAbs()*P.cwiseAbs(); ctx.closeM(A,C,scaleOf(D)+1e-300,1e-10,site+"/"+w); };
    auto vec=[&](const Vec&A,const Vec&B,const char*w){ ctx.check(A.rows()==n&&A.cols()==1,site+"/size of "+w); Vec C=P.transpose()*B; ctx.closeM(A,C,(P.cwiseAbs().transpose()*B.cwiseAbs()).cwiseAbs().maxCoeff()+1e-300,tol,site+"/"+w); };
    int order=ctx.s.draw(3); MP def=deformed(ctx,S); ctx.require(okState(S,def,EX,0.5,2.0)&&okState(S,S.mp,EX,0.5,2.0));
    for(int k=0;k<3;k++) switch((k+order)%3)
    {
    case 0: good(ctx,a.assemble(),"assemble"); good(ctx,b.assemble(),"assemble"); mat(dense(a.matrix()),dense(b.matrix()),"linear matrix"); vec(a.rhs(),b.rhs(),"linear vector"); break;
    case 1: good(ctx,a.assembleMatrix(def),"assembleMatrix"); good(ctx,b.assembleMatrix(def),"assembleMatrix"); mat(dense(a.matrix()),dense(b.matrix()),"tangent"); good(ctx,a.assembleVector(def),"assembleVector"); good(ctx,b.assembleVector(def),"assembleVector"); vec(a.rhs(),b.rhs(),"residual"); break;
    case 2: good(ctx,a.assembleMass(),"assembleMass"); good(ctx,b.assembleMass(),"assembleMass"); mat(dense(a.massMatrix()),dense(b.massMatrix()),"mass"); break;
    }
}
static void masses(Ctx&ctx,const Shell&S,Asm&a,Asm&b)
{
    int n=ctx.s.range(0,2); gsPointLoads<real_t> pl; for(int i=0;i<n;i++){ int p=ctx.s.draw(S.np()); Mat sup=S.mp.patch(p).support(); gsVector<real_t> x(2),v(1); for(int j=0;j<2;j++) x[j]=sup(j,0)+(sup(j,1)-sup(j,0))*ctx.s.real(0,1,0.5); v<<ctx.s.logreal(0.01,10,1); pl.addLoad(x,v,p,true); } if(n){ a.setPointMass(pl); b.setPointMass(pl); ctx.label("point mass"); }
}
// a field of the special space: coefficients in the local bases
static void fields(Ctx&ctx,const Shell&S,Asm&a,const gsDofMapper&plain,const Mat&P,const std::string&site,bool local,double rank=0)
{
    int n=P.cols(); Vec x=rough(ctx.s,n,0.1),y=P*x; MP D=a.constructDisplacement(x),D1=a.constructMultiPatch(x); ctx.check((int)D.nPatches()==S.np()&&(int)D1.nPatches()==S.np(),site+"/patches"); MP E=fieldOf(S,plain,y);
    MP def=a.constructSolution(x),d2; a.constructSolution(x,d2); ctx.check((int)def.nPatches()==S.np(),site+"/patches");
    for(int p=0;p<S.np();p++)
    {
        Mat sup=S.mp.patch(p).support(),u(2,5); for(int k=0;k<5;k++)for(int j=0;j<2;j++) u(j,k)=sup(j,0)+(sup(j,1)-sup(j,0))*ctx.s.real(0,1,0.5);
        Mat e=E.patch(p).eval(u),o=S.mp.patch(p).eval(u); ctx.closeM(Mat(D.patch(p).eval(u)),e,1,1e-12,site+"/displacement"); ctx.closeM(Mat(D1.patch(p).eval(u)),e,1,1e-12,site+"/solution field"); ctx.closeM(Mat(def.patch(p).eval(u)),Mat(o+e),1,1e-12,site+"/deformed"); ctx.closeM(Mat(d2.patch(p).eval(u)),Mat(o+e),1,1e-12,site+"/deformed, out parameter");
    }
    // assembly from the vector is assembly at that state
    if(okState(S,def,EX,0.6,1.7)){ good(ctx,a.assembleVector(x),"v"); Vec r1=a.rhs(); good(ctx,a.assembleVector(def),"v"); ctx.closeM(r1,Vec(a.rhs()),r1.size()?r1.cwiseAbs().maxCoeff()+1e-300:1,1e-10,site+"/vector from solution"); good(ctx,a.assembleMatrix(x),"m"); Mat K=dense(a.matrix()); good(ctx,a.assembleMatrix(def),"m"); ctx.closeM(K,dense(a.matrix()),scaleOf(K)+1e-300,1e-10,site+"/matrix from solution"); }
    if(!local) return;
    // one mapped function has one unknown per component; displacements determine the unknowns
    const gsDofMapper sp=a.getMapper(); int ng=sp.mapSize()/S.dim; Vec full=a.fullSolutionVector(x); ctx.check(full.rows()==ng*S.dim,site+"/length of the full vector"); for(int c=0;c<S.dim;c++)for(int g=0;g<ng;g++) ctx.check(full(c*ng+g,0)==(sp.is_free(g,0,c)?x(sp.index(g,0,c),0):0.0),site+"/full vector");
    if(rank>1e-2){ Vec z=a.constructSolutionVector(D); ctx.check(z.rows()==n,site+"/round trip size"); ctx.closeM(z,x,1,1e-9,site+"/round trip"); ctx.label("round trip"); }
}
PROP(A12,mapped,50,"basis functions that combine several local ones, or supports, or loads")
{
    Source&s=ctx.s; ShellOpt o; o.maxKnots=1; o.bcs=false; o.nurbs=false; o.pTHB=0; o.pMulti=60; Shell S=shell(ctx,o); S.cont=-1; if(S.np()>1&&s.flag(40)){ S.wC0=s.flag(60); S.wC1=s.flag(60); S.aI=s.logreal(1,1e4,10); if(S.m.mat) S.wC0=S.wC1=false; }
    // local functions are combined to global ones
    int nl=0; std::vector<int> off; for(int p=0;p<S.np();p++){ off.push_back(nl); nl+=S.basis.basis(p).size(); } int kind=s.draw(4); ctx.label(kind==0?"identity":kind==1?"permutation":kind==2?"matched":"combined");
    int ng=nl; std::vector<std::vector<std::pair<int,double>>> w(nl);
    if(kind<2){ std::vector<int> pi(nl); for(int i=0;i<nl;i++) pi[i]=i; if(kind==1) for(int i=nl-1;i>0;i--) std::swap(pi[i],pi[s.draw(i+1)]); for(int i=0;i<nl;i++) w[i].push_back({pi[i],1.0}); }
    else if(kind==2)
    {   // matched interface
        gsDofMapper m; gsMultiBasis<real_t> mb=S.basis; mb.getMapper(true,m,true); ng=m.size(); for(int p=0;p<S.np();p++)for(int i=0;i<S.basis.basis(p).size();i++) w[off[p]+i].push_back({(int)m.index(i,p),1.0});
    }
    else
    {
        ng=std::max(2,(int)(nl*s.real(0.4,1.0,0.7))); std::vector<char> used(ng,0);
        for(int i=0;i<nl;i++){ int n=1+s.draw(3); for(int k=0;k<n;k++){ int g= k==0&&i<ng? i : s.draw(ng); bool bad=false; for(auto&q:w[i]) bad|=q.first==g; if(bad) continue; w[i].push_back({g,s.real(0.1,1.0,0.5)}); used[g]=1; } }
    }
    SM C(nl,ng); std::vector<Mat> M; for(int i=0;i<nl;i++) for(auto&q:w[i]) C.coeffRef(i,q.first)=q.second; C.makeCompressed(); for(int p=0;p<S.np();p++){ Mat m=Mat::Zero(S.basis.basis(p).size(),ng); for(int i=0;i<m.rows();i++) for(auto&q:w[off[p]+i]) m(i,q.first)=q.second; M.push_back(m); }
    gsMappedBasis<2,real_t> mb(S.basis,C); AsmP b=S.make(S.mat.get(),s.flag(30)); gsDofMapper plain=b->getMapper(); ctx.check(plain.freeSize()==nl*S.dim,"A12/plain size");
    // supports of the mapped space: functions that do not vanish on the side
    struct F { int g,c; }; std::vector<F> fix; int nb=s.range(0,2); Shell T=S; for(int i=0;i<nb;i++){ BCspec q; q.patch=s.draw(S.np()); q.side=boxSide(1+s.draw(4)); q.comp=s.range(-1,S.dim-1); q.kind=0; q.val=0; q.type=condition_type::dirichlet; if(S.np()>1&&!S.mp.isBoundary(patchSide(q.patch,q.side))) continue; T.bcs.push_back(q); gsMatrix<index_t> bd=S.basis.basis(q.patch).boundary(q.side); for(int k=0;k<bd.size();k++) for(auto&e:w[off[q.patch]+bd(k)]) for(int c=0;c<S.dim;c++) if(q.comp==-1||q.comp==c) fix.push_back({e.first,c}); } T.applyBCs(); ctx.desc<<" map="<<kind<<" ng="<<ng<<"/"<<nl<<" nb="<<T.bcs.size();
    AsmP a=T.make(T.mat.get(),s.flag(30)); if(s.flag(20)) good(ctx,a->assembleMatrix(S.mp),"m"); a->setSpaceBasis(mb); gsDofMapper sp=a->getMapper(); std::vector<char> isF(ng*S.dim,0); for(auto&f:fix) isF[f.g*S.dim+f.c]=1; int nf=0; for(char c:isF) nf+=c; ctx.check(sp.freeSize()==ng*S.dim-nf,"A12/mapped/unknowns"); for(int g=0;g<ng;g++)for(int c=0;c<S.dim;c++) ctx.check(sp.is_free(g,0,c)==!isF[g*S.dim+c],"A12/mapped/support");
    ctx.require(sp.freeSize()>0); Mat P=bigMap(S,plain,sp,M,false); ctx.nontrivial(kind>=2||T.bcs.size()>0||S.pl.size()>0); masses(ctx,S,*a,*b); Eigen_svd svd(dense(C)); double rank=svd.singularValues()(ng-1);
    if(s.flag(50)) fields(ctx,T,*a,plain,P,"A12/mapped",true,rank); compare(ctx,T,*a,*b,P,"A12/mapped"); if(s.flag(30)) fields(ctx,T,*a,plain,P,"A12/mapped",true,rank);
}
// unknowns in the basis of the geometry, quadrature on a refined one
PROP(A12,quadrature,20,"space basis that differs from the basis of the quadrature elements")
{
    Source&s=ctx.s; ShellOpt o; o.maxKnots=1; o.bcs=false; o.nurbs=false; o.pTHB=0; Shell S=shell(ctx,o); S.cont=-1; Shell R_=S; std::vector<Mat> M;
    gsMultiBasis<real_t> coarse=S.basis,fine=S.basis; for(int p=0;p<S.np();p++){ gsSparseMatrix<real_t,RowMajor> t; fine.basis(p).uniformRefine_withTransfer(t,1); M.push_back(Mat(t.toDense())); } R_.basis=fine;
    AsmP b=R_.make(S.mat.get()); gsDofMapper plain=b->getMapper();
    Shell T=S; int nb=s.range(0,2); for(int i=0;i<nb;i++){ BCspec q; q.patch=s.draw(S.np()); q.side=boxSide(1+s.draw(4)); q.comp=s.range(-1,S.dim-1); q.kind=0; q.val=0; q.type=condition_type::dirichlet; if(S.np()>1&&!S.mp.isBoundary(patchSide(q.patch,q.side))) continue; T.bcs.push_back(q); } T.applyBCs(); Shell Q=T; Q.basis=fine;
    AsmP a; if(s.flag(50)){ a=Q.make(S.mat.get()); a->setSpaceBasis(coarse); } else { a=T.make(S.mat.get()); a->setSpaceBasis(coarse); a->setBasis(fine); }
    AsmP c=T.make(S.mat.get()); gsDofMapper sp=a->getMapper(),ref=c->getMapper(); ctx.check(sp.freeSize()==ref.freeSize(),"A12/quadrature/unknowns"); ctx.require(sp.freeSize()>0); ctx.nontrivial(); Mat P=bigMap(S,plain,sp,M,true); masses(ctx,S,*a,*b);
    if(s.flag(50)) fields(ctx,R_,*a,plain,P,"A12/quadrature",false); compare(ctx,R_,*a,*b,P,"A12/quadrature"); { Vec x=rough(s,sp.freeSize(),0.1); Vec y=a->constructSolutionVector(a->constructDisplacement(x)); ctx.closeM(y,x,1,1e-14,"A12/quadrature/round trip"); }
}
