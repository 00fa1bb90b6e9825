#include "pbt.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <exception>

namespace pbt { std::vector<Prop> & registry() { static std::vector<Prop> r; return r; } }
using namespace pbt;

enum Status { ST_NONE=0, ST_OK, ST_DISCARD, ST_FAIL };
enum { MAXCH = 1<<18 };
struct Shared {
    volatile int    status;      // of the current case
    volatile int    nontrivial;
    volatile long   checks;
    volatile uint32_t nch;
    char site[256];
    char msg[2048];
    char desc[8192];
    char labels[1024];
    uint32_t ch[MAXCH];
};
static Shared * sh;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static void put(char * dst, size_t n, const std::string & s) { size_t k=std::min(n-1,s.size()); memcpy(dst,s.data(),k); dst[k]=0; }
static std::string jstr(const std::string & s)
{
    std::string r="\""; char b[8];
    for (unsigned char c : s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c=='\n') r+="\\n"; else if (c<32||c>126) { snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; }
    return r+"\"";
}
static std::string g_tier="quick";
static int g_alarm = 60;
static bool g_mem = false;   // memory mode: only the end of the process and assertions (index checks) count as failures

static void runCase(const Prop & p, Source & src)
{
    sh->status=ST_NONE; sh->nch=0; sh->nontrivial=0; sh->checks=0; sh->site[0]=sh->msg[0]=sh->desc[0]=sh->labels[0]=0;
    src.m_hook = [](uint32_t v){ if (sh->nch<MAXCH) { sh->ch[sh->nch]=v; sh->nch=sh->nch+1; } };
    Ctx ctx(src,g_tier);
    alarm(g_alarm);
    int st=ST_OK; std::string site,msg;
    try { p.fn(ctx); }
    catch (const Discard &) { st=ST_DISCARD; }
    catch (const Failure & f) { st=ST_FAIL; site=f.site; msg=f.msg; }
    catch (const std::exception & e) { st=ST_FAIL; site="exception"; msg=e.what(); }
    catch (...) { st=ST_FAIL; site="exception"; msg="unknown exception"; }
    alarm(0);
    // in memory mode a wrong result does not count, an index check that fires does
    if (g_mem && st==ST_FAIL && !(site=="exception" && msg.find("GISMO_ASSERT")!=std::string::npos)) { st=ST_OK; site=msg=""; }
    sh->nontrivial = ctx.m_nontrivial; sh->checks=ctx.m_checks;
    put(sh->site,sizeof(sh->site),site); put(sh->msg,sizeof(sh->msg),msg); put(sh->desc,sizeof(sh->desc),ctx.desc.str());
    std::string l; for (auto & x:ctx.labels) l+=x+"\n"; put(sh->labels,sizeof(sh->labels),l);
    sh->status=st;
}

static bool g_verbose=false;
static void quiet()
{   // the library is chatty: keep its output off our stdout
    if (g_verbose) return;
    int fd=open("/dev/null",O_WRONLY); dup2(fd,1); dup2(fd,2); close(fd);
}

struct Result { int st; std::string site,msg,desc; std::vector<uint32_t> ch; };
static Result forked(const Prop & p, const std::vector<uint32_t> & in)
{
    sh->status=ST_NONE;
    fflush(stdout); fflush(stderr);
    pid_t pid=fork();
    if (pid==0) { quiet(); Source s(in); runCase(p,s); _exit(0); }
    int w; waitpid(pid,&w,0);
    Result r; r.ch.assign(sh->ch,sh->ch+sh->nch);
    if (WIFEXITED(w) && WEXITSTATUS(w)==0 && sh->status!=ST_NONE) { r.st=sh->status; r.site=sh->site; r.msg=sh->msg; r.desc=sh->desc; }
    else { r.st=ST_FAIL; r.site= WIFSIGNALED(w)? (WTERMSIG(w)==SIGALRM?"timeout":std::string("signal ")+strsignal(WTERMSIG(w))) : "exit"; r.msg="the process ended while the case ran"; }
    return r;
}

static Result shrink(const Prop & p, Result best, double budget)
{
    double t0=now(); int keep=g_alarm; g_alarm=std::min(g_alarm,g_mem?60:20);
    auto left=[&]{ return now()-t0<budget; };
    auto attempt=[&](const std::vector<uint32_t> & c)->bool {
        if (c==best.ch) return false;
        Result r=forked(p,c);
        if (r.st!=ST_FAIL) return false;
        if (r.site=="timeout" && best.site!="timeout") return false;
        if (r.ch.size()>best.ch.size()) return false;
        if (r.ch.size()==best.ch.size() && !(r.ch<best.ch)) return false;
        best=r; return true; };
    bool progress=true;
    while (progress && left())
    {
        progress=false;
        // delete / zero chunks
        for (size_t k=best.ch.size(); k>=1 && left(); k/=2)
            for (size_t i=0;i+k<=best.ch.size() && left();)
            {
                bool allz=true; for (size_t j=i;j<i+k;++j) if (best.ch[j]) allz=false;
                std::vector<uint32_t> c=best.ch;
                if (!allz) { for (size_t j=i;j<i+k;++j) c[j]=0; if (attempt(c)) { progress=true; continue; } }
                if (k<=8) { c=best.ch; c.erase(c.begin()+i,c.begin()+i+k); if (attempt(c)) { progress=true; continue; } }
                i+=k;
            }
        // reduce single values
        for (size_t i=0;i<best.ch.size() && left();++i)
        {
            for (uint32_t v=best.ch[i]/2; i<best.ch.size() && best.ch[i]>0 && left(); )
            {
                std::vector<uint32_t> c=best.ch; c[i]=v;
                if (attempt(c)) { progress=true; v=best.ch[i]/2; if (i>=best.ch.size()) break; }
                else { uint32_t nv=(v+best.ch[i]+1)/2; if (nv<=v||nv>=best.ch[i]) break; if (best.ch[i]-nv<=best.ch[i]/16) break; v=nv; }
            }
        }
    }
    g_alarm=keep;
    return best;
}

static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z=a*0x9E3779B97F4A7C15ull ^ (b+0x7F4A7C15ull+(a<<6)+(a>>2)); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }

int main(int argc, char ** argv)
{
    std::string id, sub, out, replay; uint64_t seed=1; long from=0,to=100; double cap=1e9, shr=60; int step=1;
    bool list=false;
    for (int i=1;i<argc;++i)
    {
        std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
        if (a=="--prop") id=nx(); else if (a=="--sub") sub=nx(); else if (a=="--seed") seed=strtoull(nx().c_str(),0,10);
        else if (a=="--from") from=atol(nx().c_str()); else if (a=="--to") to=atol(nx().c_str()); else if (a=="--step") step=atoi(nx().c_str());
        else if (a=="--out") out=nx(); else if (a=="--cap") cap=atof(nx().c_str()); else if (a=="--shrink") shr=atof(nx().c_str());
        else if (a=="--tier") g_tier=nx(); else if (a=="--replay") replay=nx(); else if (a=="--list") list=true; else if (a=="--verbose") g_verbose=true; else if (a=="--memory") { g_mem=true; g_alarm=300; } else if (a=="--alarm") g_alarm=atoi(nx().c_str());
    }
    sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if (list) { for (auto & p:registry()) printf("%s\t%s\t%g\t%s\n",p.id.c_str(),p.sub.c_str(),p.weight,p.rule.c_str()); return 0; }
    if (!replay.empty())
    {   // file: property, sub, tier, then the choices
        std::ifstream f(replay); std::string l; std::vector<uint32_t> ch; 
        while (std::getline(f,l)) {
            if (l.empty()||l[0]=='#') continue;
            std::istringstream is(l); std::string k; is>>k;
            if (k=="property") is>>id; else if (k=="sub") is>>sub; else if (k=="tier") is>>g_tier; else if (k=="mode") { g_mem=true; g_alarm=300; }
            else if (k=="choices") { uint32_t v; while (is>>v) ch.push_back(v); } }
        for (auto & p:registry()) if (p.id==id && p.sub==sub)
        {
            Result r=forked(p,ch);
            printf("%s %s/%s\n",r.st==ST_FAIL?"FAIL":(r.st==ST_DISCARD?"DISCARD":"PASS"),id.c_str(),sub.c_str());
            if (r.st==ST_FAIL) printf("site: %s\n%s\n",r.site.c_str(),r.msg.c_str());
            printf("case: %s\n",r.desc.c_str());
            return r.st==ST_FAIL?1:0;
        }
        fprintf(stderr,"no such property %s/%s\n",id.c_str(),sub.c_str()); return 2;
    }
    const Prop * P=0; for (auto & p:registry()) if (p.id==id && p.sub==sub) P=&p;
    if (!P) { fprintf(stderr,"no such property %s/%s\n",id.c_str(),sub.c_str()); return 2; }
    uint64_t base=0; for (char c: id+"/"+sub) base=base*131+c;
    base=mix(base,seed);

    // statistics live in a pipe-written log of the child; a new child is forked after a crash
    double t0=now(); long i=from; 
    long evals=0, nontriv=0, disc=0, checks=0; std::set<uint64_t> distinct; std::map<std::string,long> labels; std::vector<std::string> samples;
    bool failed=false; Result fr; long failcase=-1; bool capped=false;
    while (i<to && !failed && !capped)
    {
        int pf[2]; if (pipe(pf)) return 2;
        fflush(stdout);
        pid_t pid=fork();
        if (pid==0)
        {
            close(pf[0]); quiet();
            FILE * w=fdopen(pf[1],"w");
            for (long k=i;k<to;k+=step)
            {
                if (now()-t0>cap) { fprintf(w,"C\n"); break; }
                Source s(mix(base,(uint64_t)k));
                runCase(*P,s);
                uint64_t h=1469598103934665603ull; for (uint32_t c:s.record()) { h^=c; h*=1099511628211ull; }
                fprintf(w,"R %ld %d %d %ld %llu %s %s\n",k,(int)sh->status,(int)sh->nontrivial,(long)sh->checks,(unsigned long long)h,jstr(sh->labels).c_str(),
                        k<from+6*step||sh->status==ST_FAIL?jstr(sh->desc).c_str():"\"\"");
                fflush(w);
                if (sh->status==ST_FAIL) break;
            }
            fclose(w); _exit(0);
        }
        close(pf[1]);
        FILE * r=fdopen(pf[0],"r"); char * line=0; size_t cap_=0; 
        long last=i-step; bool sawfail=false;
        while (getline(&line,&cap_,r)>0)
        {
            if (line[0]=='C') { capped=true; continue; }
            long k; int st,nt; long c; unsigned long long h; int pos=0;
            if (sscanf(line,"R %ld %d %d %ld %llu %n",&k,&st,&nt,&c,&h,&pos)<5) continue;
            last=k; evals++; checks+=c;
            std::string rest(line+pos);
            // labels json string
            size_t q=1; std::string lab; while (q<rest.size() && rest[q]!='"') { if (rest[q]=='\\') { if (rest[q+1]=='n') lab+='\n'; else lab+=rest[q+1]; q+=2; } else lab+=rest[q++]; }
            std::istringstream ls(lab); std::string one; 
            if (st==ST_DISCARD) disc++;
            else { if (nt && distinct.insert(h).second) nontriv++; while (std::getline(ls,one)) labels[one]++; }
            std::string d=rest.substr(std::min(rest.size(),q+2)); while (!d.empty()&&(d.back()=='\n')) d.pop_back();
            if (samples.size()<3 && st==ST_OK && nt && d.size()>4) samples.push_back(d);
            if (st==ST_FAIL) { sawfail=true; failcase=k; }
        }
        free(line); fclose(r);
        int w; waitpid(pid,&w,0);
        if (sawfail) { failed=true; fr.st=ST_FAIL; fr.site=sh->site; fr.msg=sh->msg; fr.desc=sh->desc; fr.ch.assign(sh->ch,sh->ch+sh->nch); }
        else if (!(WIFEXITED(w)&&WEXITSTATUS(w)==0))
        {
            failed=true; failcase=last+step; evals++;
            fr.st=ST_FAIL; fr.site=WIFSIGNALED(w)?(WTERMSIG(w)==SIGALRM?"timeout":std::string("signal ")+strsignal(WTERMSIG(w))):"exit";
            fr.msg="the process ended while the case ran"; fr.ch.assign(sh->ch,sh->ch+sh->nch);
            // ended by an external kill (memory): not a verdict of ours, rerun decides
        }
        else break;
    }
    long orig=fr.ch.size(); Result mr;
    if (failed) { mr=fr; Result again=forked(*P,fr.ch); if (again.st==ST_FAIL) { if (again.site=="timeout") mr=again; else mr=shrink(*P,again,shr); } }
    std::ostringstream o;
    o<<"{\"evaluations\":"<<evals<<",\"discarded\":"<<disc<<",\"nontrivial\":"<<nontriv<<",\"checks\":"<<checks<<",\"capped\":"<<(capped?"true":"false")<<",\"wall\":"<<now()-t0<<",\"labels\":{";
    bool f=true; for (auto & l:labels) { o<<(f?"":",")<<jstr(l.first)<<":"<<l.second; f=false; }
    o<<"},\"samples\":["; f=true; for (auto & s:samples) { o<<(f?"":",")<<s; f=false; }
    o<<"]";
    if (failed)
    {
        o<<",\"failure\":{\"case\":"<<failcase<<",\"original_choices\":"<<orig<<",\"site\":"<<jstr(mr.site)<<",\"msg\":"<<jstr(mr.msg)<<",\"desc\":"<<jstr(mr.desc)<<",\"choices\":[";
        for (size_t k=0;k<mr.ch.size();++k) { o<<(k?",":"")<<mr.ch[k]; }
        o<<"],\"original\":[";
        for (size_t k=0;k<fr.ch.size();++k) { o<<(k?",":"")<<fr.ch[k]; }
        o<<"]}";
    }
    o<<"}\n";
    if (out.empty()) fputs(o.str().c_str(),stdout); else { std::ofstream fo(out); fo<<o.str(); }
    return failed?1:0;
}
