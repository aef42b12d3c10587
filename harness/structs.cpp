// Drives the container classes: MinIDQueue, IDSetMinQueue, BitVector, LocalIDMapper, IDMapper, TimestampFlags.
#include "h.h"
#include <routingkit/id_queue.h>
#include <routingkit/id_set_queue.h>
#include <routingkit/bit_vector.h>
#include <routingkit/id_mapper.h>
#include <routingkit/timestamp_flag.h>
#include <algorithm>
using namespace RoutingKit; using namespace vh; using namespace std;

static map<int,unique_ptr<MinIDQueue>> qs; static vector<unsigned> keys;
static map<int,unique_ptr<IDSetMinQueue>> ss;
static map<int,unique_ptr<BitVector>> bs;
static map<int,unique_ptr<TimestampFlags>> fs; static map<int,unsigned> fn;
struct Map{ vector<uint64_t> raw; BitVector vec; unique_ptr<LocalIDMapper> l; unique_ptr<IDMapper> m; uint64_t n; };
static map<int,Map> ms;
static void clear_all(){ qs.clear(); ss.clear(); bs.clear(); ms.clear(); fs.clear(); fn.clear(); keys.clear(); }
template<class M> static typename M::mapped_type::element_type& at(M&m, int i){ auto it=m.find(i); if(it==m.end()||!it->second){ fprintf(stderr,"harness: no object %d\n",i); exit(97);} return *it->second; }

static int keyidx(unsigned k){ auto i=lower_bound(keys.begin(),keys.end(),k); if(i==keys.end()||*i!=k) return -3; return i-keys.begin(); }
static void qobs(Ev&e, int qi){
	MinIDQueue&q=at(qs,qi); e.i("size",q.size()); e.b("empty",q.empty()); e.i("n",q.id_count());
	string m="["; bool f=true;
	for(unsigned i=0;i<q.id_count();++i) if(q.contains_id(i)){ if(!f)m+=","; f=false; m+="["+to_string(i)+","+to_string(keyidx(q.get_key(i)))+"]"; }
	e.raw("m",m+"]");
	if(!q.empty()){ IDKeyPair p=q.peek(); e.i("pid",p.id); e.i("pkey",keyidx(p.key)); }
}
static void sobs(Ev&e, int i, bool dump=true){
	IDSetMinQueue&s=at(ss,i); e.b("empty",s.empty()); e.i("n",s.id_count()); e.u("peek",s.peek());
	if(dump){ vector<unsigned>l; for(unsigned x=0;x<s.id_count();++x) if(s.contains(x)) l.push_back(x); e.l("m",l); }
}
static void bobs(Ev&e, int i){
	const BitVector&b=at(bs,i); e.i("n",b.size()); e.b("none",b.empty());
	vector<unsigned>l; for(uint64_t x=0;x<b.size();++x) if(b.is_set(x)) l.push_back(x);
	e.l("m",l); e.i("ct",b.count_true()); e.i("cf",b.count_false()); e.i("pc",b.population_count()); e.b("all",b.are_all_set()); e.b("any",b.is_any_set()); e.i("blocks",b.uint512_count());
}

int main(){
	Table t;
	// ---- MinIDQueue: keys are given and reported as positions in a strictly increasing table of actual keys
	t["keys"]=[](Args&a){ auto v=a.llist(); keys.assign(v.begin(),v.end()); Ev e("keys"); e.i("n",keys.size()); e.out(); };
	t["q_new"]=[](Args&a){ int q=a.u(); unsigned n=a.u(); qs[q].reset(new MinIDQueue(n)); Ev e("q_new"); e.i("q",q); e.i("cnt",n); qobs(e,q); e.out(); };
	t["q_new0"]=[](Args&a){ int q=a.u(); qs[q].reset(new MinIDQueue()); Ev e("q_new"); e.i("q",q); e.i("cnt",0); qobs(e,q); e.out(); };
	// a pop may return any minimum, so that scripts cannot know what is left in the queue: inapplicable operations are skipped
	t["q_push"]=[](Args&a){ int q=a.u(); unsigned id=a.u(), k=a.u(); if(id>=at(qs,q).id_count()||at(qs,q).contains_id(id)) return; at(qs,q).push({id,keys[k]}); Ev e("q_push"); e.i("q",q); e.i("id",id); e.i("key",k); qobs(e,q); e.out(); };
	t["q_pop"]=[](Args&a){ int q=a.u(); if(at(qs,q).empty()) return; IDKeyPair p=at(qs,q).pop(); Ev e("q_pop"); e.i("q",q); e.i("id",p.id); e.i("key",keyidx(p.key)); qobs(e,q); e.out(); };
	t["q_dec"]=[](Args&a){ int q=a.u(); unsigned id=a.u(), k=a.u(); if(id>=at(qs,q).id_count()||!at(qs,q).contains_id(id)) return; bool r=at(qs,q).decrease_key({id,keys[k]}); Ev e("q_dec"); e.i("q",q); e.i("id",id); e.i("key",k); e.b("res",r); qobs(e,q); e.out(); };
	t["q_inc"]=[](Args&a){ int q=a.u(); unsigned id=a.u(), k=a.u(); if(id>=at(qs,q).id_count()||!at(qs,q).contains_id(id)) return; bool r=at(qs,q).increase_key({id,keys[k]}); Ev e("q_inc"); e.i("q",q); e.i("id",id); e.i("key",k); e.b("res",r); qobs(e,q); e.out(); };
	t["q_clear"]=[](Args&a){ int q=a.u(); at(qs,q).clear(); Ev e("q_clear"); e.i("q",q); qobs(e,q); e.out(); };
	t["q_copy"]=[](Args&a){ int q=a.u(), r=a.u(); unique_ptr<MinIDQueue> c(new MinIDQueue(at(qs,r))); qs[q]=move(c); Ev e("q_copy"); e.i("q",q); e.i("r",r); qobs(e,q); e.out(); };
	t["q_assign"]=[](Args&a){ int q=a.u(), r=a.u(); at(qs,q)=at(qs,r); Ev e("q_copy"); e.i("q",q); e.i("r",r); qobs(e,q); e.out(); };
	t["q_swap"]=[](Args&a){ int q=a.u(), r=a.u(); { using std::swap; swap(at(qs,q),at(qs,r)); } { Ev e("q_swap"); e.i("q",q); e.i("r",r); qobs(e,q); e.out(); } Ev f("q_obs"); f.i("q",r); qobs(f,r); f.out(); };
	// many operations at once, for large queues (the key k of an id is keys[k])
	auto big=[](Ev&e,int qi,bool all){ MinIDQueue&q=at(qs,qi); e.i("size",q.size()); e.b("empty",q.empty()); e.i("n",q.id_count()); if(!q.empty()){ IDKeyPair p=q.peek(); e.i("pid",p.id); e.i("pkey",keyidx(p.key)); }
		if(all){ vector<int>v(q.id_count(),-1); for(unsigned i=0;i<q.id_count();++i) if(q.contains_id(i)) v[i]=keyidx(q.get_key(i)); e.li("all",v); } };
	t["keysr"]=[](Args&a){ unsigned n=a.u(), off=a.u(), step=a.u(); keys.resize(n); for(unsigned i=0;i<n;++i) keys[i]=off+i*step; Ev e("keys"); e.i("n",n); e.out(); };
	t["q_pushq"]=[big](Args&a){ int q=a.u(); auto ids=a.list(); auto ks=a.list(); vector<int> kv(at(qs,q).id_count(),-1); for(size_t i=0;i<ids.size();++i) if(ids[i]<kv.size() && !at(qs,q).contains_id(ids[i])){ at(qs,q).push({ids[i],keys[ks[i]]}); kv[ids[i]]=ks[i]; }
		Ev e("q_pushq"); e.i("q",q); e.li("kv",kv); big(e,q,true); e.out(); };
	t["q_popq"]=[big](Args&a){ int q=a.u(); unsigned k=a.u(); vector<unsigned>ids; vector<int>ks; for(unsigned i=0;i<k&&!at(qs,q).empty();++i){ auto p=at(qs,q).pop(); ids.push_back(p.id); ks.push_back(keyidx(p.key)); } Ev e("q_popq"); e.i("q",q); e.l("ids",ids); e.li("keys",ks); big(e,q,false); e.out(); };
	t["q_keyq"]=[big](Args&a){ int q=a.u(); bool dec=a.u(); auto ids=a.list(); auto ks=a.list(); vector<int> kv(at(qs,q).id_count(),-1); vector<unsigned>chg; for(size_t i=0;i<ids.size();++i) if(ids[i]<kv.size() && kv[ids[i]]==-1 && at(qs,q).contains_id(ids[i])){ kv[ids[i]]=ks[i]; IDKeyPair p={ids[i],keys[ks[i]]}; if(dec?at(qs,q).decrease_key(p):at(qs,q).increase_key(p)) chg.push_back(ids[i]); }
		Ev e("q_keyq"); e.i("q",q); e.b("dec",dec); e.li("kv",kv); e.l("chg",chg); big(e,q,true); e.out(); };
	// ---- IDSetMinQueue
	t["s_new"]=[](Args&a){ int s=a.u(); unsigned n=a.u(); ss[s].reset(new IDSetMinQueue(n)); Ev e("s_new"); e.i("s",s); e.i("cnt",n); sobs(e,s); e.out(); };
	t["s_push"]=[](Args&a){ int s=a.u(); unsigned id=a.u(); at(ss,s).push(id); Ev e("s_push"); e.i("s",s); e.i("id",id); sobs(e,s); e.out(); };
	t["s_pushq"]=[](Args&a){ int s=a.u(); auto l=a.list(); for(unsigned x:l) at(ss,s).push(x); Ev e("s_pushq"); e.i("s",s); e.l("ids",l); sobs(e,s,false); e.out(); };
	t["s_pop"]=[](Args&a){ int s=a.u(); unsigned r=at(ss,s).pop(); Ev e("s_pop"); e.i("s",s); e.u("id",r); sobs(e,s); e.out(); };
	t["s_popq"]=[](Args&a){ int s=a.u(); unsigned k=a.u(); vector<unsigned>l; for(unsigned i=0;i<k;++i) l.push_back(at(ss,s).pop()); Ev e("s_popq"); e.i("s",s); e.l("ids",l); sobs(e,s,false); e.out(); };
	t["s_pushr"]=[](Args&a){ int s=a.u(); unsigned lo=a.u(), hi=a.u(), step=a.u(); vector<unsigned>l; for(unsigned x=lo;x<hi;x+=step) l.push_back(x); for(size_t i=l.size();i--;) at(ss,s).push(l[i]); Ev e("s_pushq"); e.i("s",s); e.l("ids",l); sobs(e,s,false); e.out(); };
	t["s_clear"]=[](Args&a){ int s=a.u(); at(ss,s).clear(); Ev e("s_clear"); e.i("s",s); sobs(e,s); e.out(); };
	t["s_copy"]=[](Args&a){ int s=a.u(), r=a.u(); unique_ptr<IDSetMinQueue> c(new IDSetMinQueue(at(ss,r))); ss[s]=move(c); Ev e("s_copy"); e.i("s",s); e.i("r",r); sobs(e,s); e.out(); };
	t["s_assign"]=[](Args&a){ int s=a.u(), r=a.u(); at(ss,s)=at(ss,r); Ev e("s_copy"); e.i("s",s); e.i("r",r); sobs(e,s); e.out(); };
	t["s_obs"]=[](Args&a){ int s=a.u(); Ev e("s_obs"); e.i("s",s); sobs(e,s); e.out(); };
	// ---- BitVector
	t["b_new"]=[](Args&a){ int b=a.u(); uint64_t n=a.u64(); string v=a.str(); // 0 1 d(efault value) u(ninitialized) e(mpty constructor)
		bs[b].reset(v=="e"?new BitVector():v=="u"?new BitVector(n,BitVector::uninitialized):v=="d"?new BitVector(n):new BitVector(n,v=="1"));
		Ev e("b_new"); e.i("b",b); e.i("cnt",v=="e"?0:n); e.t("v",v); bobs(e,b); e.out(); };
	t["b_make"]=[](Args&a){ int b=a.u(); uint64_t n=a.u64(); auto l=a.list(); vector<bool> in(n); for(unsigned x:l) in[x]=true;
		bs[b].reset(new BitVector(make_bit_vector(n,[&](uint64_t x)->bool{return in[x];}))); Ev e("b_make"); e.i("b",b); e.i("cnt",n); e.l("list",l); bobs(e,b); e.out(); };
	t["b_bit"]=[](Args&a){ int b=a.u(); string o=a.str(); uint64_t x=a.u64(); BitVector&v=at(bs,b);
		if(o=="set")v.set(x); else if(o=="reset")v.reset(x); else if(o=="toggle")v.toggle(x); else if(o=="set0")v.set(x,false); else if(o=="set1")v.set(x,true); else if(o=="if0")v.set_if(x,false); else if(o=="if1")v.set_if(x,true); else exit(97);
		Ev e("b_bit"); e.i("b",b); e.t("o",o); e.i("x",x); bobs(e,b); e.out(); };
	t["b_all"]=[](Args&a){ int b=a.u(); string o=a.str(); BitVector&v=at(bs,b);
		if(o=="set")v.set_all(); else if(o=="reset")v.reset_all(); else if(o=="set0")v.set_all(false); else if(o=="set1")v.set_all(true); else if(o=="not")v.inplace_not(); else exit(97);
		Ev e("b_all"); e.i("b",b); e.t("o",o); bobs(e,b); e.out(); };
	t["b_resize"]=[](Args&a){ int b=a.u(); uint64_t n=a.u64(); string v=a.str(); BitVector&x=at(bs,b);
		if(v=="u") x.resize(n,BitVector::uninitialized); else if(v=="d") x.resize(n); else x.resize(n,v=="1");
		Ev e("b_resize"); e.i("b",b); e.i("cnt",n); e.t("v",v); bobs(e,b); e.out(); };
	t["b_grow"]=[](Args&a){ int b=a.u(); uint64_t n=a.u64(); string v=a.str(); BitVector&x=at(bs,b);
		if(v=="u") x.make_large_enough_for(n,BitVector::uninitialized); else if(v=="d") x.make_large_enough_for(n); else x.make_large_enough_for(n,v=="1");
		Ev e("b_grow"); e.i("b",b); e.i("x",n); e.t("v",v); bobs(e,b); e.out(); };
	t["b_in"]=[](Args&a){ int b=a.u(); string o=a.str(); int c=a.u(); BitVector&x=at(bs,b); const BitVector&y=at(bs,c);
		BitVector*r; if(o=="or") r=&(x|=y); else if(o=="and") r=&(x&=y); else r=&(x^=y);
		Ev e("b_in"); e.i("b",b); e.t("o",o); e.i("c",c); e.b("same",r==&x); bobs(e,b); e.out(); };
	t["b_bin"]=[](Args&a){ int d=a.u(); int b=a.u(); string o=a.str(); int c=a.u(); string cat=a.str(); // value categories: ll lr rl rr
		const BitVector&x=at(bs,b), &y=at(bs,c); BitVector r; BitVector cx=x, cy=y;
		#define OP(OPR) (cat=="ll"?x OPR y:cat=="lr"?x OPR std::move(cy):cat=="rl"?std::move(cx) OPR y:std::move(cx) OPR std::move(cy))
		if(o=="or") r=OP(|); else if(o=="and") r=OP(&); else r=OP(^);
		bs[d].reset(new BitVector(std::move(r))); Ev e("b_bin"); e.i("d",d); e.i("b",b); e.t("o",o); e.i("c",c); bobs(e,d); e.out(); };
	t["b_inv"]=[](Args&a){ int d=a.u(), b=a.u(); unique_ptr<BitVector> r(new BitVector(~at(bs,b))); bs[d]=move(r); Ev e("b_inv"); e.i("d",d); e.i("b",b); bobs(e,d); e.out(); };
	t["b_copy"]=[](Args&a){ int d=a.u(), b=a.u(); string how=a.str(); // ctor assign move moveassign swap
		if(how=="ctor"){ unique_ptr<BitVector> r(new BitVector(at(bs,b))); bs[d]=move(r); }
		else if(how=="assign"){ if(!bs[d]) bs[d].reset(new BitVector); *bs[d]=at(bs,b); }
		else if(how=="move"){ unique_ptr<BitVector> r(new BitVector(std::move(at(bs,b)))); bs[d]=move(r); }
		else if(how=="moveassign"){ if(!bs[d]) bs[d].reset(new BitVector); *bs[d]=std::move(at(bs,b)); }
		else at(bs,d).swap(at(bs,b));
		{ Ev e("b_copy"); e.i("d",d); e.i("b",b); e.t("how",how); bobs(e,d); e.out(); }
		if(how=="move"||how=="moveassign") return; // what is left in the source is unspecified
		Ev e("b_obs"); e.i("b",b); bobs(e,b); e.out(); };
	t["b_obs"]=[](Args&a){ int b=a.u(); Ev e("b_obs"); e.i("b",b); bobs(e,b); e.out(); };
	t["b_cmp"]=[](Args&a){ auto l=a.list(); Ev e("b_cmp"); e.l("list",l); string s="[";
		for(size_t i=0;i<l.size();++i){ if(i)s+=","; s+="["; for(size_t j=0;j<l.size();++j){ const BitVector&x=at(bs,l[i]),&y=at(bs,l[j]); if(j)s+=",";
			s+=string("\"")+(x==y?"=":".")+(x!=y?"!":".")+(x<y?"<":".")+(x>y?">":".")+(x<=y?"l":".")+(x>=y?"g":".")+"\""; } s+="]"; }
		e.raw("r",s+"]"); e.out(); };
	// ---- ID mappers over the positions `list` of a universe of n global ids
	t["m_new"]=[](Args&a){ int m=a.u(); string how=a.str(); uint64_t n=a.u64(); auto l=a.list(); Map&x=ms[m]; x=Map(); x.n=n;
		if(how=="raw"||how=="rawlocal"){ x.raw.assign((n+511)/512*8,0); for(unsigned i:l) x.raw[i/64]|=1ull<<(i%64); x.l.reset(new LocalIDMapper(n,x.raw.data())); if(how=="raw") x.m.reset(new IDMapper(n,x.raw.data())); }
		else { x.vec=BitVector(n); for(unsigned i:l) x.vec.set(i); x.l.reset(new LocalIDMapper(x.vec)); if(how=="vec") x.m.reset(new IDMapper(x.vec)); }
		Ev e("m_new"); e.i("x",m); e.i("n",n); e.l("list",l); e.out(); };
	t["m_new0"]=[](Args&a){ int m=a.u(); Map&x=ms[m]; x=Map(); x.n=0; x.l.reset(new LocalIDMapper); x.m.reset(new IDMapper); Ev e("m_new"); e.i("x",m); e.i("n",0); e.l("list",vector<unsigned>()); e.out(); };
	t["m_all"]=[](Args&a){ int m=a.u(); uint64_t inv=a.u64(); Map&x=ms[m]; const LocalIDMapper&l=x.m?*x.m:*x.l; Ev e("m_all"); e.i("x",m); e.i("inv",inv);
		e.i("gc",l.global_id_count()); e.i("lc",l.local_id_count());
		vector<long long> loc, plain, mapped, glob; for(uint64_t g=0;g<x.n;++g){ loc.push_back(l.to_local(g,inv)); if(l.is_global_id_mapped(g)){ mapped.push_back(g); plain.push_back(l.to_local(g)); } }
		vector<long long> out; for(uint64_t g: {x.n, x.n+1, x.n+63, x.n+64, x.n+511, x.n+512, x.n+100000, (uint64_t)1<<40, ~(uint64_t)0}) out.push_back(l.to_local(g,inv));
		// the id of every position is given only where it differs from inv
		vector<long long> mg, ml; for(uint64_t g=0;g<x.n;++g) if((uint64_t)loc[g]!=inv){ mg.push_back(g); ml.push_back(loc[g]); }
		e.li("mg",mg); e.li("ml",ml); e.li("mapped",mapped); e.li("plain",plain); e.li("out",out);
		if(x.m){ for(uint64_t i=0;i<x.m->local_id_count();++i) glob.push_back(x.m->to_global(i)); e.li("glob",glob); }
		e.out(); };
	// ---- TimestampFlags
	t["f_new"]=[](Args&a){ int f=a.u(); unsigned n=a.u(); fs[f].reset(new TimestampFlags(n)); fn[f]=n; Ev e("f_new"); e.i("f",f); e.i("n",n); e.out(); };
	t["f_set"]=[](Args&a){ int f=a.u(); unsigned x=a.u(); at(fs,f).set(x); Ev e("f_set"); e.i("f",f); e.i("x",x); e.out(); };
	t["f_rst1"]=[](Args&a){ int f=a.u(); unsigned x=a.u(); at(fs,f).reset_one(x); Ev e("f_rst1"); e.i("f",f); e.i("x",x); e.out(); };
	t["f_rst"]=[](Args&a){ int f=a.u(); unsigned k=a.u(); for(unsigned i=0;i<k;++i) at(fs,f).reset_all(); Ev e("f_rst"); e.i("f",f); e.i("k",k); e.out(); };
	t["f_obs"]=[](Args&a){ int f=a.u(); vector<unsigned>l; for(unsigned x=0;x<fn[f];++x) if(at(fs,f).is_set(x)) l.push_back(x); Ev e("f_obs"); e.i("f",f); e.l("m",l); e.out(); };
	return loop(t,clear_all);
}
