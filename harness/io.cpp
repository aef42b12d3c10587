// Drives reading and writing: vector files, data sources, the asynchronous reader, protobuf messages and tag maps.
#include "h.h"
#include <routingkit/vector_io.h>
#include <routingkit/tag_map.h>
#include "file_data_source.h"
#include "buffered_asynchronous_reader.h"
#include "protobuf.h"
#include <thread>
#include <mutex>
#include <chrono>
#include <sstream>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
using namespace RoutingKit; using namespace vh; using namespace std;

// ---- scratch directory
static string dir;
static void clean(){ if(dir.empty()) return; if(DIR*d=opendir(dir.c_str())){ while(dirent*e=readdir(d)){ string n=e->d_name; if(n!="."&&n!="..") unlink((dir+"/"+n).c_str()); } closedir(d); } }
static void mkscratch(){ const char*b=getenv("VERIF_TMP"); struct stat st; string p=(b&&!stat(b,&st)?string(b):string("/tmp"))+"/io-XXXXXX"; vector<char>v(p.begin(),p.end()); v.push_back(0); if(!mkdtemp(&v[0])) exit(96); dir=&v[0]; }
// names: letters are files in the scratch directory, FULL is a device without space, NODIR is in a missing directory
static string path(const string&n){ if(n=="FULL") return "/dev/full"; if(n=="DIR") return dir; if(n=="NODIR") return dir+"/missing/file"; if(n.size()!=1) exit(95); return dir+"/"+n; }

static string bytes(const char*p, size_t n){ string s="["; for(size_t i=0;i<n;++i){ if(i)s+=","; s+=to_string((unsigned)(unsigned char)p[i]); } return s+"]"; }
static string bytes(const string&x){ return bytes(x.data(),x.size()); }
static string slurp(const string&f){ ifstream in(f,ios::binary); stringstream s; s<<in.rdbuf(); return s.str(); }
static void spit(const string&f, const string&c){ ofstream o(f,ios::binary); o<<c; }

template<class T> static vector<T> podvec(const string&raw){ vector<T> v(raw.size()/sizeof(T)); memcpy((void*)v.data(),raw.data(),v.size()*sizeof(T)); return v; }
template<class T> static string rawvec(const vector<T>&v){ return string((const char*)v.data(), v.size()*sizeof(T)); }
struct Pod3{ unsigned char a,b,c; };
template<class T> struct Id{ typedef T type; };
template<class F> static void with_type(const string&t, F f){
	if(t=="u8") f(Id<unsigned char>()); else if(t=="u16") f(Id<unsigned short>()); else if(t=="u32") f(Id<unsigned>()); else if(t=="u64") f(Id<uint64_t>());
	else if(t=="f32") f(Id<float>()); else if(t=="f64") f(Id<double>()); else if(t=="p3") f(Id<Pod3>()); else exit(94); }
// the operation did what it should, or threw; anything but a std::exception is not caught
template<class F> static bool ok(F f){ try{ f(); return true; }catch(exception&){ return false; } }

struct Saver{ string name, raw; bool value; bool*r; Ev*e;
	template<class T> void operator()(Id<T>){ e->i("sz",sizeof(T)); auto v=podvec<T>(raw); auto n=name; bool val=value; *r=ok([&]{ if(val) save_value(n,v.at(0)); else save_vector(n,v); }); } };
struct Loader{ string name; bool value; Ev*e;
	template<class T> void operator()(Id<T>){ e->i("sz",sizeof(T)); vector<T>v; auto n=name; bool val=value; bool r=ok([&]{ if(val) v=vector<T>(1,load_value<T>(n)); else v=load_vector<T>(n); }); e->b("ok",r); e->raw("raw",bytes(r?rawvec(v):string())); } };
// stream functions: write k values and a vector, read them back through either interface
struct Streamer{ string raw; unsigned cut; bool fw, fr; Ev*e;
	template<class T> void operator()(Id<T>){ e->i("sz",sizeof(T)); auto v=podvec<T>(raw); stringstream s; function<void(const char*,unsigned long long)> out=[&](const char*p,unsigned long long n){ s.write(p,n); };
		for(auto x:v) if(fw) write_value(out,x); else write_value(s,x);
		if(fw) write_vector(out,v); else write_vector(s,v);
		string all=s.str(); e->raw("file",bytes(all)); string part=all.substr(0,cut<all.size()?cut:all.size()); stringstream in(part); size_t pos=0;
		function<void(char*,unsigned long long)> rd=[&](char*p,unsigned long long n){ if(pos+n>part.size()) throw runtime_error("short"); memcpy(p,part.data()+pos,n); pos+=n; };
		vector<T> a,b; bool ra=ok([&]{ for(size_t i=0;i<v.size();++i) a.push_back(fr?read_value<T>(rd):read_value<T>(in)); }); bool rb=ra&&ok([&]{ b=fr?read_vector<T>(rd,v.size()):read_vector<T>(in,v.size()); });
		e->b("okv",ra); e->raw("vals",bytes(rawvec(a))); e->b("okr",rb); e->raw("vec",bytes(rb?rawvec(b):string())); } };

static BitVector bitsof(const vector<unsigned>&b){ BitVector v(b.size(),false); for(unsigned i=0;i<b.size();++i) if(b[i]) v.set(i); return v; }
static vector<unsigned> listof(const BitVector&b){ vector<unsigned>l; for(unsigned i=0;i<b.size();++i) l.push_back(b.is_set(i)); return l; }

// ---- asynchronous reader
static unsigned char stream_byte(unsigned long long p){ return (unsigned char)((p*7+(p/251)*13+(p/65521))&255); }
struct Source{ mutex m; vector<unsigned> chunk; string end; unsigned delay; unsigned long long pos; size_t k; vector<unsigned> asked, given; bool ended; unsigned after_end; 
	unsigned long long read(char*buf, unsigned long long n){
		unsigned give=0; { lock_guard<mutex>g(m); asked.push_back((unsigned)n); if(ended) ++after_end; }
		if(delay) this_thread::sleep_for(chrono::microseconds(delay*(k%3)));
		lock_guard<mutex>g(m);
		if(k<chunk.size()){ give=chunk[k]; if(give>n) give=(unsigned)n; for(unsigned i=0;i<give;++i) buf[i]=(char)stream_byte(pos+i); pos+=give; chunk[k]-=give; if(!chunk[k]) ++k; given.push_back(give); return give; }
		ended=true; if(end=="throw") throw runtime_error("source failed"); return 0; } };
struct Rd{ shared_ptr<Source> s; shared_ptr<FileDataSource> f; unique_ptr<BufferedAsynchronousReader> r; char*held; unsigned n; };
static map<int,Rd> rd; static map<int,shared_ptr<FileDataSource>> fds; static map<int,function<unsigned long long(char*,unsigned long long)>> fns; static map<int,TagMap> tms; static map<int,vector<string>> tmkeep;

static string hex64(uint64_t v){ return bytes((const char*)&v,8); }

int main(){
	mkscratch();
	Table t;
	// ---- vector files
	t["v_save"]=[](Args&a){ string ty=a.str(), n=a.str(); string raw=a.hex(); bool r=false; Ev e("v_save"); e.t("type",ty); e.t("f",n); Saver s{path(n),raw,false,&r,&e}; with_type(ty,s); e.raw("raw",bytes(raw)); e.b("ok",r); e.out(); };
	t["v_savev"]=[](Args&a){ string ty=a.str(), n=a.str(); string raw=a.hex(); bool r=false; Ev e("v_save"); e.t("type",ty); e.t("f",n); Saver s{path(n),raw,true,&r,&e}; with_type(ty,s); e.raw("raw",bytes(raw)); e.b("ok",r); e.out(); };
	t["v_load"]=[](Args&a){ string ty=a.str(), n=a.str(); Ev e("v_load"); e.t("type",ty); e.t("f",n); Loader l{path(n),false,&e}; with_type(ty,l); e.out(); };
	t["v_loadv"]=[](Args&a){ string ty=a.str(), n=a.str(); Ev e("v_loadv"); e.t("type",ty); e.t("f",n); Loader l{path(n),true,&e}; with_type(ty,l); e.out(); };
	t["s_save"]=[](Args&a){ string n=a.str(); unsigned k=a.u(); vector<string>v(k); for(auto&x:v) x=a.hex(); Ev e("s_save"); e.t("f",n); string s="["; for(unsigned i=0;i<k;++i) s+=(i?",":"")+bytes(v[i]); e.raw("v",s+"]"); e.b("ok",ok([&]{ save_vector(path(n),v); })); e.out(); };
	t["s_load"]=[](Args&a){ string n=a.str(); vector<string>v; Ev e("s_load"); e.t("f",n); e.b("ok",ok([&]{ v=load_vector<string>(path(n)); })); string s="["; for(unsigned i=0;i<v.size();++i) s+=(i?",":"")+bytes(v[i]); e.raw("v",s+"]"); e.out(); };
	t["b_save"]=[](Args&a){ string n=a.str(); auto l=a.list(); Ev e("b_save"); e.t("f",n); e.l("v",l); auto b=bitsof(l); e.b("ok",ok([&]{ save_bit_vector(path(n),b); })); e.out(); };
	t["b_load"]=[](Args&a){ string n=a.str(); BitVector b; Ev e("b_load"); e.t("f",n); e.b("ok",ok([&]{ b=load_bit_vector(path(n)); })); e.l("v",listof(b)); e.i("pop",b.population_count()); e.out(); };
	t["b_stream"]=[](Args&a){ auto l=a.list(); auto b=bitsof(l); string all; function<void(const char*,unsigned long long)> out=[&](const char*p,unsigned long long n){ all.append(p,n); }; write_bit_vector(out,b); size_t pos=0;
		function<void(char*,unsigned long long)> in=[&](char*p,unsigned long long n){ if(pos+n>all.size()) throw runtime_error("short"); memcpy(p,all.data()+pos,n); pos+=n; }; Ev e("b_stream"); e.l("v",l); BitVector c; e.b("ok",ok([&]{ c=read_bit_vector(in,l.size()); })); e.l("r",listof(c)); e.i("pop",c.population_count()); e.i("left",(long long)(all.size()-pos)); e.out(); };
	t["w_stream"]=[](Args&a){ string ty=a.str(); string raw=a.hex(); unsigned cut=a.u(); bool fw=a.u(), fr=a.u(); Ev e("w_stream"); e.raw("raw",bytes(raw)); e.i("cut",cut==invalid_id?2000000000:cut); Streamer s{raw,cut,fw,fr,&e}; with_type(ty,s); e.out(); };
	t["x_save"]=[](Args&a){ string n=a.str(); string raw=a.hex(); Ev e("x_save"); e.t("f",n); e.raw("raw",bytes(raw)); e.b("ok",ok([&]{ open_file_for_saving(path(n),[&](ostream&o){ o.write(raw.data(),raw.size()); }); })); e.out(); };
	t["x_load"]=[](Args&a){ string n=a.str(); Ev e("x_load"); e.t("f",n); string raw; long long size=-1; e.b("ok",ok([&]{ open_file_for_loading(path(n),[&](istream&in, unsigned long long s){ size=(long long)s; stringstream x; x<<in.rdbuf(); raw=x.str(); }); })); e.i("size",size); e.raw("raw",bytes(raw)); e.out(); };
	// the environment changes a file
	t["f_put"]=[](Args&a){ string n=a.str(); string raw=a.hex(); spit(path(n),raw); Ev e("f_put"); e.t("f",n); e.raw("raw",bytes(raw)); e.out(); };
	t["f_cut"]=[](Args&a){ string n=a.str(); unsigned k=a.u(); string c=slurp(path(n)); if(k<c.size()) c.resize(k); spit(path(n),c); Ev e("f_cut"); e.t("f",n); e.i("k",k); e.out(); };
	t["f_add"]=[](Args&a){ string n=a.str(); string raw=a.hex(); spit(path(n),slurp(path(n))+raw); Ev e("f_add"); e.t("f",n); e.raw("raw",bytes(raw)); e.out(); };
	t["f_del"]=[](Args&a){ string n=a.str(); unlink(path(n).c_str()); Ev e("f_del"); e.t("f",n); e.out(); };
	// ---- file data source
	t["d_new"]=[](Args&a){ int i=a.num(); fds[i]=make_shared<FileDataSource>(); Ev e("d_new"); e.i("i",i); e.out(); };
	t["d_open"]=[](Args&a){ int i=a.num(); string n=a.str(); bool c=a.u(); Ev e("d_open"); e.i("i",i); e.t("f",n); e.b("ctor",c); e.b("ok",ok([&]{ if(c) fds[i]=make_shared<FileDataSource>(path(n)); else fds.at(i)->open(path(n)); })); e.out(); };
	t["d_read"]=[](Args&a){ int i=a.num(); unsigned k=a.u(); string b(k,'\x55'); unsigned long long r=0; Ev e("d_read"); e.i("i",i); e.i("k",k); bool o=ok([&]{ r=fds.at(i)->read(&b[0],k); }); e.b("ok",o); e.raw("raw",bytes(b.substr(0,r<=k?r:0))); e.i("r",r); e.out(); };
	t["d_fn"]=[](Args&a){ int i=a.num(), j=a.num(); fns[j]=fds.at(i)->get_read_function_object(); Ev e("d_fn"); e.i("i",i); e.i("j",j); e.out(); };
	t["d_call"]=[](Args&a){ int j=a.num(); unsigned k=a.u(); string b(k,'\x55'); unsigned long long r=0; Ev e("d_call"); e.i("j",j); e.i("k",k); bool o=ok([&]{ r=fns.at(j)(&b[0],k); }); e.b("ok",o); e.raw("raw",bytes(b.substr(0,r<=k?r:0))); e.i("r",r); e.out(); };
	t["d_size"]=[](Args&a){ int i=a.num(); unsigned long long s=0; Ev e("d_size"); e.i("i",i); e.b("ok",ok([&]{ s=fds.at(i)->size(); })); e.i("s",s); e.out(); };
	t["d_rewind"]=[](Args&a){ int i=a.num(); Ev e("d_rewind"); e.i("i",i); e.b("ok",ok([&]{ fds.at(i)->rewind(); })); e.out(); };
	t["d_close"]=[](Args&a){ int i=a.num(); fds.at(i)->close(); Ev e("d_close"); e.i("i",i); e.out(); };
	t["d_move"]=[](Args&a){ int i=a.num(), j=a.num(); bool c=a.u(); if(c) fds[i]=make_shared<FileDataSource>(std::move(*fds.at(j))); else *fds.at(i)=std::move(*fds.at(j)); Ev e("d_move"); e.i("i",i); e.i("j",j); e.out(); };
	t["d_del"]=[](Args&a){ int i=a.num(); fds.erase(i); Ev e("d_del"); e.i("i",i); e.out(); };
	// number of descriptors of this process that point into the scratch directory
	t["d_count"]=[](Args&){ unsigned n=0; if(DIR*d=opendir("/proc/self/fd")){ while(dirent*x=readdir(d)){ char b[4096]; ssize_t k=readlink((string("/proc/self/fd/")+x->d_name).c_str(),b,sizeof b-1); if(k>0){ b[k]=0; if(string(b).compare(0,dir.size(),dir)==0) ++n; } } closedir(d); } Ev e("d_count"); e.i("n",n); e.out(); };
	// ---- asynchronous reader over a scripted source (or a file)
	t["r_new"]=[](Args&a){ int i=a.num(); unsigned bs=a.u(); auto ch=a.list(); string end=a.str(); unsigned delay=a.u(); auto s=make_shared<Source>(); s->chunk=ch; s->end=end; s->delay=delay; s->pos=0; s->k=0; s->ended=false; s->after_end=0; rd.erase(i); Rd&x=rd[i]; x.s=s; x.held=0; x.n=0;
		x.r.reset(new BufferedAsynchronousReader(std::function<unsigned long long(char*,unsigned long long)>([s](char*b,unsigned long long n){ return s->read(b,n); }),bs)); Ev e("r_new"); e.i("i",i); e.i("bs",bs); e.l("chunks",ch); e.t("end",end); e.out(); };
	t["r_file"]=[](Args&a){ int i=a.num(); unsigned bs=a.u(); unsigned len=a.u(); string c; for(unsigned p=0;p<len;++p) c+=(char)stream_byte(p); spit(dir+"/r"+to_string(i),c); rd.erase(i); Rd&x=rd[i]; x.f=make_shared<FileDataSource>(dir+"/r"+to_string(i)); x.held=0; x.n=0;
		x.r.reset(new BufferedAsynchronousReader(x.f->get_read_function_object(),bs)); Ev e("r_new"); e.i("i",i); e.i("bs",bs); e.l("chunks",vector<unsigned>(1,len)); e.t("end","eof"); e.out(); };
	t["r_read"]=[](Args&a){ int i=a.num(); unsigned n=a.u(); bool orthrow=a.u(); Rd&x=rd.at(i); Ev e("r_read"); e.i("i",i); e.i("n",n); e.b("ort",orthrow); x.held=0;
		try{ char*p=orthrow?x.r->read_or_throw(n):x.r->read(n); if(!p){ e.t("out","null"); e.raw("raw","[]"); } else { x.held=p; x.n=n; e.t("out","data"); e.raw("raw",bytes(p,n)); } }
		catch(exception&err){ e.t("out",string(err.what())=="source failed"?"source":"error"); e.raw("raw","[]"); } e.out(); };
	t["r_hold"]=[](Args&a){ int i=a.num(); unsigned us=a.u(); Rd&x=rd.at(i); if(us) this_thread::sleep_for(chrono::microseconds(us)); if(!x.held) return; Ev e("r_hold"); e.i("i",i); e.raw("raw",bytes(x.held,x.n)); e.out(); };
	t["r_move"]=[](Args&a){ int i=a.num(), j=a.num(); bool assign=a.u(); Rd y; y.s=rd.at(j).s; y.f=rd.at(j).f; y.held=rd.at(j).held; y.n=rd.at(j).n; if(assign){ y.r.reset(new BufferedAsynchronousReader); *y.r=std::move(*rd.at(j).r); } else y.r.reset(new BufferedAsynchronousReader(std::move(*rd.at(j).r))); rd.erase(j); rd.erase(i); rd[i]=std::move(y); Ev e("r_move"); e.i("i",i); e.i("j",j); e.out(); };
	t["r_del"]=[](Args&a){ int i=a.num(); Rd&x=rd.at(i); x.r.reset(); Ev e("r_del"); e.i("i",i); if(x.s){ this_thread::sleep_for(chrono::microseconds(200)); lock_guard<mutex>g(x.s->m); e.l("asked",x.s->asked); e.l("given",x.s->given); e.i("after",x.s->after_end); } else { e.raw("asked","[]"); e.raw("given","[]"); e.i("after",0); } e.out(); rd.erase(i); };
	// ---- protobuf
	t["p_varint"]=[](Args&a){ string m=a.hex(); vector<char> buf(m.begin(),m.end()); const char*b=buf.data(),*end=b+buf.size(); uint64_t v=0; Ev e("p_varint"); e.raw("m",bytes(m)); bool r=ok([&]{ v=decode_varint_as_uint64_and_advance_first_parameter(b,end); }); e.b("ok",r); e.raw("v",hex64(v)); e.i("used",b-buf.data()); e.out(); };
	t["p_zigzag"]=[](Args&a){ string m=a.hex(); uint64_t x; memcpy(&x,m.data(),8); int64_t y=zigzag_convert_uint64_to_int64(x); Ev e("p_zigzag"); e.raw("x",hex64(x)); e.raw("y",hex64((uint64_t)y)); e.out(); };
	t["p_msg"]=[](Args&a){ string m=a.hex(); vector<char> buf(m.begin(),m.end()); string calls="["; auto add=[&](uint64_t id,const char*kind,const string&val){ if(calls.size()>1) calls+=","; calls+="{\"id\":"+hex64(id)+",\"k\":\""+kind+"\",\"v\":"+val+"}"; };
		const char*b=buf.data(); Ev e("p_msg"); e.raw("m",bytes(m)); bool r=ok([&]{ decode_protobuf_message_with_callbacks(b,b+buf.size(),[&](uint64_t id,uint64_t v){ add(id,"int",hex64(v)); },[&](uint64_t id,double v){ uint64_t x; memcpy(&x,&v,8); add(id,"num",hex64(x)); },[&](uint64_t id,const char*x,const char*y){ add(id,"str",bytes(x,y-x)); }); }); e.b("ok",r); e.raw("calls",calls+"]"); e.out(); };
	// ---- tag map: keys and values are C strings that outlive the map
	t["t_new"]=[](Args&a){ int i=a.num(); tms[i]=TagMap(); Ev e("t_new"); e.i("i",i); e.out(); };
	t["t_build"]=[](Args&a){ int i=a.num(); unsigned k=a.u(); vector<string>&v=tmkeep[i]; vector<string> w(2*k); for(auto&x:w) x=a.hex(); TagMap&m=tms[i]; // the old strings go away when the map is rebuilt
		v.swap(w); m.build(k,[&](unsigned j){return v[2*j].c_str();},[&](unsigned j){return v[2*j+1].c_str();}); Ev e("t_build"); e.i("i",i); vector<string> ks,vs; for(unsigned j=0;j<k;++j){ ks.push_back(v[2*j]); vs.push_back(v[2*j+1]); } e.lt("ks",ks); e.lt("vs",vs); e.out(); };
	t["t_get"]=[](Args&a){ int i=a.num(); string k=a.hex(); const TagMap&m=tms.at(i); const char*r=m[k.c_str()]; Ev e("t_get"); e.i("i",i); e.t("k",k); e.b("found",r!=nullptr); e.t("v",r?r:""); e.out(); };
	t["t_all"]=[](Args&a){ int i=a.num(); const TagMap&m=tms.at(i); vector<string> ks,vs; for(auto x:m){ ks.push_back(x.key); vs.push_back(x.value); } Ev e("t_all"); e.i("i",i); e.i("size",m.size()); e.b("empty",m.empty()); e.lt("ks",ks); e.lt("vs",vs); e.out(); };
	t["t_clear"]=[](Args&a){ int i=a.num(); tms.at(i).clear(); Ev e("t_clear"); e.i("i",i); e.out(); };
	int r=loop(t,[]{ rd.clear(); fns.clear(); fds.clear(); tms.clear(); tmkeep.clear(); clean(); });
	clean(); rmdir(dir.c_str());
	return r;
}
