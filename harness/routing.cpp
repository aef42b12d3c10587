// Drives RoutingKit's routing objects (CH, CCH, Dijkstra) through their public interface.
#include "h.h"
#include <atomic>
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/customizable_contraction_hierarchy.h>
#include <routingkit/dijkstra.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/sort.h>
#include <routingkit/permutation.h>
#include <thread>
#include <algorithm>
#include <fstream>
#include <unistd.h>
using namespace RoutingKit; using namespace vh; using namespace std;

typedef ContractionHierarchy CH; typedef ContractionHierarchyQuery CHQ;
typedef CustomizableContractionHierarchy CCH; typedef CustomizableContractionHierarchyMetric Metric; typedef CustomizableContractionHierarchyQuery CCHQ;

struct G{ unsigned n; vector<unsigned> tail, head, first_out, stail, shead, sorted; };
static map<int,unique_ptr<G>> graphs; static map<int,unique_ptr<vector<unsigned>>> wts;
static map<int,unique_ptr<CH>> chs; static map<int,unique_ptr<CCH>> cchs; static map<int,pair<vector<unsigned>,bool>> given; static map<int,unique_ptr<Metric>> mets;
static map<int,unique_ptr<CustomizableContractionHierarchyParallelization>> pars;
static map<int,unique_ptr<CustomizableContractionHierarchyPartialCustomization>> parts;
static map<int,unique_ptr<CHQ>> chq; static map<int,unique_ptr<CCHQ>> cchq;
struct D{ unique_ptr<Dijkstra> d; int g; };
static map<int,D> djs;

// extra weight objects that are reused within a scenario
static ContractionHierarchyExtraWeight<vector<unsigned>> xpre; static ContractionHierarchyExtraWeight<unsigned> xpu; static ContractionHierarchyExtraWeight<int> xpi; static unsigned xcount=0;
template<class X, class W, class L> static void xreset(X&x, const CH&ch, const W&w, const L&l){
	unsigned k=xcount++;
	if(k%4==0){ x=X(ch,w,l); return; }
	if(k%4==1){ W r(w.rbegin(), w.rend()); x.reset(ch,r,l); } // other weights before
	x.reset(ch,w,l);
}
static void clear_all(){ xpre=ContractionHierarchyExtraWeight<vector<unsigned>>(); xpu=ContractionHierarchyExtraWeight<unsigned>(); xpi=ContractionHierarchyExtraWeight<int>(); xcount=0; djs.clear(); chq.clear(); cchq.clear(); parts.clear(); pars.clear(); mets.clear(); cchs.clear(); given.clear(); chs.clear(); wts.clear(); graphs.clear(); }

template<class M> static typename M::mapped_type::element_type& at(M&m, int i){ auto it=m.find(i); if(it==m.end()||!it->second){ fprintf(stderr,"harness: no object %d\n",i); exit(97);} return *it->second; }

static string nested(const vector<vector<unsigned>>&v){ string s="["; for(size_t i=0;i<v.size();++i){ if(i)s+=","; s+="["; for(size_t j=0;j<v[i].size();++j){ if(j)s+=","; s+=Ev::ds(v[i][j]); } s+="]"; } return s+"]"; }
static string nested3(const vector<vector<vector<unsigned>>>&v){ string s="["; for(size_t i=0;i<v.size();++i){ if(i)s+=","; s+=nested(v[i]); } return s+"]"; }

// fetch results in an order given by `perm`; fields: d distance, u used source/target, n node path, a arc path
template<class Q> void fetch(Q&q, Ev&e, const string&what){
	for(char c:what) switch(c){
		case 'd': e.u("dist", q.get_distance()); break;
		case 'u': e.u("src", q.get_used_source()); e.u("tgt", q.get_used_target()); break;
		case 'v': e.u("tgt", q.get_used_target()); e.u("src", q.get_used_source()); break;
		case 'n': e.l("nodes", q.get_node_path()); break;
		case 'a': e.l("arcs", q.get_arc_path()); break;
		default: exit(97);
	}
}

typedef vector<pair<unsigned,unsigned>> Seeds;
static Seeds seeds(Args&a){ unsigned k=a.u(); Seeds s(k); for(auto&x:s){ x.first=a.u(); x.second=a.u(); } return s; }
static string seeds_json(const Seeds&s){ string r="["; for(size_t i=0;i<s.size();++i){ if(i)r+=","; r+="["+Ev::ds(s[i].first)+","+Ev::ds(s[i].second)+"]"; } return r+"]"; }
template<class Q> void one_route(Q&q, const Seeds&S, const Seeds&T, const string&what, Ev&e){
	q.reset(); for(auto&x:S) q.add_source(x.first,x.second); for(auto&x:T) q.add_target(x.first,x.second); q.run(); fetch(q,e,what);
}
template<class Q> void table(Q&q, unsigned n, const string&what, Ev&e){
	vector<vector<unsigned>> dist(n, vector<unsigned>(n)); vector<vector<vector<unsigned>>> arcs(n, vector<vector<unsigned>>(n)), nodes=arcs;
	bool wd=what.find('d')!=string::npos, wa=what.find('a')!=string::npos;
	for(unsigned s=0;s<n;++s) for(unsigned t=0;t<n;++t){
		q.reset().add_source(s).add_target(t).run();
		if(wd) dist[s][t]=q.get_distance();
		if(wa){ arcs[s][t]=q.get_arc_path(); nodes[s][t]=q.get_node_path(); }
	}
	if(wd) e.raw("dist", nested(dist));
	if(wa){ e.raw("arcs", nested3(arcs)); e.raw("nodes", nested3(nodes)); }
}

struct Concat{ vector<unsigned> operator()(vector<unsigned> l, const vector<unsigned>&r)const{ l.insert(l.end(), r.begin(), r.end()); return l; } };

static CH save_load(const CH&ch, const string&mode){
	if(mode=="stream"){ stringstream s; ch.write(s); return CH::read(s); }
	if(mode=="streamsize"){ stringstream s; ch.write(s); unsigned long long n=s.str().size(); return CH::read(s, n); }
	string buf; ch.write([&](const char*p, unsigned long long k){ buf.append(p,k); });
	if(mode=="func"||mode=="funcsize"){
		unsigned long long pos=0; auto src=[&](char*p, unsigned long long k){ if(pos+k>buf.size()) throw runtime_error("end"); memcpy(p,buf.data()+pos,k); pos+=k; };
		return mode=="func"?CH::read(src):CH::read(src,buf.size());
	}
	if(mode=="file"){ char n[]="/tmp/vfchXXXXXX"; int fd=mkstemp(n); close(fd); ch.save_file(n); CH r; try{ r=CH::load_file(n); }catch(...){ unlink(n); throw; } unlink(n); return r; }
	if(mode=="copy"){ CH c(ch); return c; }
	if(mode=="assign"){ CH c; c=ch; return c; }
	exit(97);
}

static bool logging=false; static size_t log_size=0;

static string side_json(const CH::Side&s){
	Ev e("x"); e.l("first",s.first_out).l("head",s.head).l("w",s.weight).l("a",s.shortcut_first_arc).l("b",s.shortcut_second_arc);
	vector<unsigned> o; for(uint64_t i=0;i<s.is_shortcut_an_original_arc.size();++i) o.push_back(s.is_shortcut_an_original_arc.is_set(i)); e.l("orig",o);
	return e.s+"}";
}
// one edit of a hierarchy: set/push/pop/swap at a position (taken modulo the length)
static void edit(CH&c, const string&f, const string&op, unsigned i, unsigned v){
	CH::Side&s= f[0]=='f'?c.forward:c.backward; string n=f.substr(1);
	if(n=="orig"){ BitVector&b=s.is_shortcut_an_original_arc; uint64_t k=b.size(); if(op=="push"){ b.resize(k+1, false); } else if(k && op=="pop") b.resize(k-1); else if(k) b.set(i%k, !b.is_set(i%k)); return; }
	vector<unsigned>&x= f=="rank"?c.rank: f=="order"?c.order: n=="first"?s.first_out: n=="head"?s.head: n=="w"?s.weight: n=="a"?s.shortcut_first_arc: s.shortcut_second_arc;
	if(op=="push") x.push_back(v); else if(x.empty()) return; else if(op=="pop") x.pop_back(); else if(op=="swap") swap(x[i%x.size()], x[v%x.size()]); else if(op=="add") x[i%x.size()]+=v; else x[i%x.size()]=v;
}

// pinned one-to-many query inside a thread; the events of one query are recorded as one text, once per distinct outcome
static void pinned_res(CHQ&q, Ev&e, bool t){ e.l("used", t?q.get_used_sources_to_targets():q.get_used_targets_to_sources()); }
static void pinned_res(CCHQ&, Ev&, bool){}
static const char*kind_of(CHQ&){ return "ch"; }
static const char*kind_of(CCHQ&){ return "cch"; }
template<class Q> void pinned_route(Q&q, unsigned id, int b, const Seeds&S, const Seeds&T, const string&what, vector<string>&out){
	bool t=what[0]=='t'; string text; auto put=[&](Ev&e){ if(!text.empty()) text+="}\n"; text+=e.s; };
	vector<unsigned> pins; for(auto&x:(t?T:S)) pins.push_back(x.first);
	{ Ev e("query"); e.i("q",id).t("kind",kind_of(q)).i("b",b); put(e); }
	q.reset(); if(t) q.pin_targets(pins); else q.pin_sources(pins);
	{ Ev e(t?"pin_t":"pin_s"); e.i("q",id).l("list",pins); put(e); }
	for(int round=0;round<2;++round){
		if(round){ if(t) q.reset_source(); else q.reset_target(); Ev e(t?"reset_s":"reset_t"); e.i("q",id); put(e); }
		const Seeds&X= t?S:T; for(size_t i=0;i<X.size();++i){ if(round && i) break; if(t) q.add_source(X[i].first,X[i].second); else q.add_target(X[i].first,X[i].second); Ev e(t?"src":"tgt"); e.i("q",id).u("x",X[i].first).u("off",X[i].second); put(e); }
		if(t) q.run_to_pinned_targets(); else q.run_to_pinned_sources();
		{ Ev e(t?"run_t":"run_s"); e.i("q",id); put(e); }
		Ev e(t?"res_t":"res_s"); e.i("q",id).l("dists", t?q.get_distances_to_targets():q.get_distances_to_sources()); pinned_res(q,e,t); put(e);
	}
	if(find(out.begin(),out.end(),text)==out.end()) out.push_back(text);
}

int main(){
	Table t;
	t["log"]=[](Args&a){ logging=a.num(); };
	// ch_dump <h> <edits> (<field> <op> <pos> <value>)* : the contents of a copy after the edits, and what the checker says
	t["ch_dump"]=[](Args&a){ int h=a.num(); unsigned k=a.u(); CH c(at(chs,h)); for(unsigned j=0;j<k;++j){ string f=a.str(), op=a.str(); unsigned i=a.u(), v=a.u(); edit(c,f,op,i,v); }
		bool ok=true; try{ check_contraction_hierarchy_for_errors(c); }catch(std::exception&){ ok=false; }
		Ev("ch_dump").i("h",h).b("edited",k!=0).b("ok",ok).u("n",c.node_count()).l("rank",c.rank).l("order",c.order).raw("F",side_json(c.forward)).raw("B",side_json(c.backward)).out(); };
	t["graph"]=[](Args&a){ int id=a.num(); unique_ptr<G> g(new G); g->n=a.u(); g->tail=a.list(); g->head=a.list();
		Ev("graph").i("g",id).u("n",g->n).l("tail",g->tail).l("head",g->head).out(); graphs[id]=move(g); };
	t["weights"]=[](Args&a){ int id=a.num(); auto v=a.list(); auto&p=wts[id]; if(!p) p.reset(new vector<unsigned>(v)); else copy(v.begin(),v.end(),p->begin()); Ev("weights").i("w",id).l("v",*p).out(); };
	t["setw"]=[](Args&a){ int id=a.num(); unsigned x=a.u(), v=a.u(); at(wts,id)[x]=v; Ev("setw").i("w",id).u("a",x).u("x",v).out(); };
	t["cert"]=[](Args&a){ int g=a.num(), w=a.num(); string dir=a.str(); Seeds s=seeds(a); auto pot=a.list(), pred=a.list(), ord=a.list();
		Ev("cert").i("g",g).i("w",w).t("dir",dir).raw("seeds",seeds_json(s)).l("pot",pot).l("pred",pred).l("ord",ord).out(); };
	// ch <h> <g> <w> <how> ... : how = auto <maxpop> | rank <list> <maxpop> | order <list> <maxpop>
	t["ch"]=[](Args&a){ int h=a.num(), gi=a.num(), w=a.num(); string how=a.str(); G&g=at(graphs,gi); auto&ww=at(wts,w);
		unique_ptr<CH> c(new CH); auto log=std::function<void(std::string)>(); if(logging) log=[](std::string m){ log_size+=m.size(); };
		auto loud=[&](unsigned mp){ if(mp%2) log=[](std::string m){ log_size+=m.size(); }; return mp; };  // an odd limit also asks for log messages
		if(how=="auto"){ unsigned mp=loud(a.u()); *c=CH::build(g.n,g.tail,g.head,ww,log,mp); }
		else{ auto v=a.list(); unsigned mp=loud(a.u()); *c= how=="rank"?CH::build_given_rank(v,g.tail,g.head,ww,log,mp):CH::build_given_order(v,g.tail,g.head,ww,log,mp); }
		Ev("ch").i("h",h).i("g",gi).i("w",w).out(); chs[h]=move(c); };
	t["ch_alias"]=[](Args&a){ int h=a.num(), old=a.num(); string mode=a.str(); unique_ptr<CH> c(new CH(save_load(at(chs,old),mode))); Ev("ch_alias").i("h",h).i("old",old).t("mode",mode).out(); chs[h]=move(c); };
	// cch <c> <g> <filter> <order>
	t["cch"]=[](Args&a){ int c=a.num(), gi=a.num(); bool f=a.num(); auto order=a.list(); G&g=at(graphs,gi);
		unique_ptr<CCH> x(new CCH(order,g.tail,g.head,[](const string&){},f)); Ev("cch").i("c",c).i("g",gi).b("filter",f).out(); cchs[c]=move(x); given[c]={order,f}; };
	t["cch_alias"]=[](Args&a){ int c=a.num(), old=a.num(); string mode=a.str(); 
		if(mode=="copydrop"){ unique_ptr<CCH> x(new CCH(at(cchs,old))); *cchs[old]=CCH(); cchs[c]=move(x); }
		else if(mode=="assign"){ unique_ptr<CCH> x(new CCH); *x=at(cchs,old); cchs[c]=move(x); }
		else if(mode=="move"){ unique_ptr<CCH> x(new CCH(std::move(at(cchs,old)))); cchs[c]=move(x); }
		else { unique_ptr<CCH> x(new CCH(at(cchs,old))); cchs[c]=move(x); }
		given[c]=given[old]; Ev("cch_alias").i("c",c).i("old",old).t("mode",mode).out(); };
	// perfect_dump <h> <c> : the contents of a hierarchy extracted from a metric of c
	t["perfect_dump"]=[](Args&a){ int h=a.num(), k=a.num(); CH&c=at(chs,h); bool ok=true; try{ check_contraction_hierarchy_for_errors(c); }catch(std::exception&){ ok=false; }
		Ev("perfect_dump").i("h",h).b("edited",false).b("filter",given[k].second).b("ok",ok).u("n",c.node_count()).l("rank",c.rank).l("order",c.order).raw("F",side_json(c.forward)).raw("B",side_json(c.backward)).out(); };
	// cch_dump <c> : the contents of a customizable hierarchy, next to the order and the filter it was made with
	t["cch_dump"]=[](Args&a){ int c=a.num(); CCH&x=at(cchs,c); vector<unsigned> up; for(uint64_t i=0;i<x.is_input_arc_upward.size();++i) up.push_back(x.is_input_arc_upward.is_set(i));
		Ev("cch_dump").i("c",c).b("filter",given[c].second).l("given",given[c].first).u("n",x.node_count()).u("ic",x.input_arc_count()).u("cc",x.cch_arc_count()).l("order",x.order).l("rank",x.rank).l("parent",x.elimination_tree_parent)
			.l("tail",x.up_tail).l("head",x.up_head).l("first",x.up_first_out).l("map",x.input_arc_to_cch_arc).l("up",up).out(); };
	// m_dump <m> : the weights of a customized metric
	t["m_dump"]=[](Args&a){ int m=a.num(); Metric&x=at(mets,m); const CCH&c=*x.cch; Ev("m_dump").i("m",m).u("n",c.node_count()).l("rank",c.rank).l("tail",c.up_tail).l("head",c.up_head).l("fw",x.forward).l("bw",x.backward).out(); };
	t["metric"]=[](Args&a){ int m=a.num(), c=a.num(), w=a.num(); unique_ptr<Metric> x; 
		string how=a.str();
		if(how=="ptr") x.reset(new Metric(at(cchs,c), at(wts,w).data())); else if(how=="default"){ x.reset(new Metric); x->reset(at(cchs,c), at(wts,w)); } else x.reset(new Metric(at(cchs,c), at(wts,w)));
		mets[m]=move(x); Ev("metric").i("m",m).i("c",c).i("w",w).out(); };
	t["m_alias"]=[](Args&a){ int m=a.num(), old=a.num(); mets[m].reset(new Metric(at(mets,old))); Ev("m_alias").i("m",m).i("old",old).out(); };
	t["m_weights"]=[](Args&a){ int m=a.num(), w=a.num(); string how=a.str(); if(how=="ptr") at(mets,m).reset(at(wts,w).data()); else at(mets,m).reset(at(wts,w)); Ev("m_weights").i("m",m).i("w",w).out(); };
	t["m_rebind"]=[](Args&a){ int m=a.num(), c=a.num(), w=a.num(); string how=a.str(); if(how=="ptr") at(mets,m).reset(at(cchs,c),at(wts,w).data()); else at(mets,m).reset(at(cchs,c),at(wts,w)); Ev("m_rebind").i("m",m).i("c",c).i("w",w).out(); };
	t["customize"]=[](Args&a){ int m=a.num(); at(mets,m).customize(); Ev("customize").i("m",m).out(); };
	t["par"]=[](Args&a){ int x=a.num(), c=a.num(); string how=a.str(); 
		if(how=="reset"){ auto&p=pars[x]; if(!p) p.reset(new CustomizableContractionHierarchyParallelization); p->reset(at(cchs,c)); } else pars[x].reset(new CustomizableContractionHierarchyParallelization(at(cchs,c)));
		Ev("par").i("x",x).i("c",c).out(); };
	t["pcustomize"]=[](Args&a){ int x=a.num(), m=a.num(); unsigned th=a.u(); if(th==0) at(pars,x).customize(at(mets,m)); else at(pars,x).customize(at(mets,m), th); Ev("pcustomize").i("x",x).i("m",m).u("threads",th).out(); };
	// pstress <par> <metric> <threads> <reps> <source> <targets>: customize again and again; one route event per distinct answer
	t["pstress"]=[](Args&a){ int x=a.num(), m=a.num(); unsigned th=a.u(), reps=a.u(), s=a.u(); auto T=a.list();
		vector<map<unsigned,unsigned>> ans(T.size()); CCHQ q;
		for(unsigned r=0;r<reps;++r){ at(pars,x).customize(at(mets,m), th); q.reset(at(mets,m)); for(size_t i=0;i<T.size();++i){ q.reset().add_source(s).add_target(T[i]).run(); ++ans[i][q.get_distance()]; } }
		Ev("pcustomize").i("x",x).i("m",m).u("threads",th).out();
		for(size_t i=0;i<T.size();++i) for(auto&p:ans[i]){ Ev e("route"); e.t("kind","cch").i("b",m).raw("S","[["+to_string(s)+",0]]").raw("T","[["+to_string(T[i])+",0]]").u("dist",p.first).i("times",p.second).out(); } };
	t["part"]=[](Args&a){ int p=a.num(), c=a.num(); string how=a.str();
		if(how=="reset"){ auto&x=parts[p]; if(!x) x.reset(new CustomizableContractionHierarchyPartialCustomization); x->reset(at(cchs,c)); } else parts[p].reset(new CustomizableContractionHierarchyPartialCustomization(at(cchs,c)));
		Ev("part").i("p",p).i("c",c).out(); };
	t["p_reset"]=[](Args&a){ int p=a.num(); at(parts,p).reset(); Ev("p_reset").i("p",p).out(); };
	t["p_update"]=[](Args&a){ int p=a.num(); unsigned x=a.u(); at(parts,p).update_arc(x); Ev("p_update").i("p",p).u("a",x).out(); };
	t["p_customize"]=[](Args&a){ int p=a.num(), m=a.num(); at(parts,p).customize(at(mets,m)); Ev("p_customize").i("p",p).i("m",m).out(); };
	t["perfect"]=[](Args&a){ int h=a.num(), m=a.num(); unique_ptr<CH> c(new CH(at(mets,m).build_contraction_hierarchy_using_perfect_witness_search())); chs[h]=move(c); Ev("perfect").i("h",h).i("m",m).out(); };

	t["query"]=[](Args&a){ int q=a.num(); string kind=a.str(); int b=a.num(); chq.erase(q); cchq.erase(q); if(kind=="ch") chq[q].reset(new CHQ(at(chs,b))); else cchq[q].reset(new CCHQ(at(mets,b))); Ev("query").i("q",q).t("kind",kind).i("b",b).out(); };
	t["query0"]=[](Args&a){ int q=a.num(); string kind=a.str(); chq.erase(q); cchq.erase(q); if(kind=="ch") chq[q].reset(new CHQ()); else cchq[q].reset(new CCHQ()); Ev("query0").i("q",q).t("kind",kind).out(); };
	t["q_alias"]=[](Args&a){ int q=a.num(), old=a.num(); string mode=a.str();
		if(chq.count(old)){ CHQ&o=at(chq,old); unique_ptr<CHQ> n; if(mode=="copy") n.reset(new CHQ(o)); else if(mode=="move") n.reset(new CHQ(std::move(o))); else { n.reset(new CHQ()); *n=o; } cchq.erase(q); chq[q]=move(n); }
		else { CCHQ&o=at(cchq,old); unique_ptr<CCHQ> n; if(mode=="copy") n.reset(new CCHQ(o)); else if(mode=="move") n.reset(new CCHQ(std::move(o))); else { n.reset(new CCHQ()); *n=o; } chq.erase(q); cchq[q]=move(n); }
		Ev("q_alias").i("q",q).i("old",old).out(); };
	#define BOTH(expr) if(chq.count(q)){ CHQ&Q=at(chq,q); (void)Q; expr; } else { CCHQ&Q=at(cchq,q); (void)Q; expr; }
	t["q_reset"]=[](Args&a){ int q=a.num(); unsigned k=a.more()?a.u():1; for(unsigned i=0;i<k;++i){ BOTH(Q.reset()); } Ev("q_reset").i("q",q).out(); };
	t["q_rebind"]=[](Args&a){ int q=a.num(), b=a.num(); if(chq.count(q)) at(chq,q).reset(at(chs,b)); else at(cchq,q).reset(at(mets,b)); Ev("q_rebind").i("q",q).i("b",b).out(); };
	t["src"]=[](Args&a){ int q=a.num(); unsigned x=a.u(); if(a.more()){ unsigned o=a.u(); BOTH(Q.add_source(x,o)); Ev("src").i("q",q).u("x",x).u("off",o).out(); } else { BOTH(Q.add_source(x)); Ev("src").i("q",q).u("x",x).u("off",0).out(); } };
	t["tgt"]=[](Args&a){ int q=a.num(); unsigned x=a.u(); if(a.more()){ unsigned o=a.u(); BOTH(Q.add_target(x,o)); Ev("tgt").i("q",q).u("x",x).u("off",o).out(); } else { BOTH(Q.add_target(x)); Ev("tgt").i("q",q).u("x",x).u("off",0).out(); } };
	t["run"]=[](Args&a){ int q=a.num(); BOTH(Q.run()); Ev("run").i("q",q).out(); };
	t["res"]=[](Args&a){ int q=a.num(); string w=a.str(); Ev e("res"); e.i("q",q); BOTH(fetch(Q,e,w)); e.out(); };
	t["pin_t"]=[](Args&a){ int q=a.num(); auto v=a.list(); BOTH(Q.pin_targets(v)); Ev("pin_t").i("q",q).l("list",v).out(); };
	t["pin_s"]=[](Args&a){ int q=a.num(); auto v=a.list(); BOTH(Q.pin_sources(v)); Ev("pin_s").i("q",q).l("list",v).out(); };
	t["run_t"]=[](Args&a){ int q=a.num(); BOTH(Q.run_to_pinned_targets()); Ev("run_t").i("q",q).out(); };
	t["run_s"]=[](Args&a){ int q=a.num(); BOTH(Q.run_to_pinned_sources()); Ev("run_s").i("q",q).out(); };
	t["reset_s"]=[](Args&a){ int q=a.num(); unsigned k=a.more()?a.u():1; for(unsigned i=0;i<k;++i){ BOTH(Q.reset_source()); } Ev("reset_s").i("q",q).out(); };
	t["reset_t"]=[](Args&a){ int q=a.num(); unsigned k=a.more()?a.u():1; for(unsigned i=0;i<k;++i){ BOTH(Q.reset_target()); } Ev("reset_t").i("q",q).out(); };
	// res_t <q> <npins> <what>   what: d distances (vector), p distances (pointer), u used nodes (CH only), w used (pointer)
	t["res_t"]=[](Args&a){ int q=a.num(); string w=a.str(); Ev e("res_t"); e.i("q",q);
		for(char c:w){
			if(c=='d'){ BOTH(e.l("dists", Q.get_distances_to_targets())); }
			if(c=='p'){ vector<unsigned> v; BOTH(v=Q.get_distances_to_targets(); fill(v.begin(),v.end(),12345u); if(!v.empty()) Q.get_distances_to_targets(&v[0])); e.l("dists",v); }
			if(c=='u') e.l("used", at(chq,q).get_used_sources_to_targets());
			if(c=='w'){ vector<unsigned> v(at(chq,q).get_pinned_target_count()+1,12345u); at(chq,q).get_used_sources_to_targets(&v[0]); v.pop_back(); e.l("used",v); }
		} e.out(); };
	t["res_s"]=[](Args&a){ int q=a.num(); string w=a.str(); Ev e("res_s"); e.i("q",q);
		for(char c:w){
			if(c=='d'){ BOTH(e.l("dists", Q.get_distances_to_sources())); }
			if(c=='p'){ vector<unsigned> v; BOTH(v=Q.get_distances_to_sources(); fill(v.begin(),v.end(),12345u); if(!v.empty()) Q.get_distances_to_sources(&v[0])); e.l("dists",v); }
			if(c=='u') e.l("used", at(chq,q).get_used_targets_to_sources());
			if(c=='w'){ vector<unsigned> v(at(chq,q).get_pinned_source_count()+1,12345u); at(chq,q).get_used_targets_to_sources(&v[0]); v.pop_back(); e.l("used",v); }
		} e.out(); };
	// ew <q> <w> : extra weights after run
	// ch_bad <h> <reader> <kind> <arg>: load a damaged image of a hierarchy
	t["ch_bad"]=[](Args&a){ int h=a.num(); string reader=a.str(), kind=a.str(); unsigned long long arg=a.u64();
		string buf; at(chs,h).write([&](const char*p, unsigned long long k){ buf.append(p,k); });
		size_t full=buf.size();
		if(kind=="trunc") buf.resize(full-1-arg%full);
		else if(kind=="extend") buf.append(1+arg%100, (char)arg);
		else if(kind=="magic") buf[arg%8] ^= (char)(1u<<((arg/8)%8));
		else if(kind=="count") { unsigned x; memcpy(&x, &buf[8+4*(arg%3)], 4); x+=1+(arg/3)%50; memcpy(&buf[8+4*(arg%3)], &x, 4); }
		string res="loaded";
		try{
			if(reader=="stream"){ stringstream s(buf); CH c=CH::read(s); }
			else if(reader=="streamsize"){ stringstream s(buf); CH c=CH::read(s, buf.size()); }
			else if(reader=="func"||reader=="funcsize"){
				unsigned long long pos=0; auto src=[&](char*p, unsigned long long k){ if(pos+k>buf.size()) throw runtime_error("end"); memcpy(p,buf.data()+pos,k); pos+=k; };
				CH c = reader=="func"?CH::read(src):CH::read(src,buf.size());
			} else { char n[]="/tmp/vfchXXXXXX"; int fd=mkstemp(n); if(write(fd,buf.data(),buf.size())!=(ssize_t)buf.size()) exit(97); close(fd); try{ CH c=CH::load_file(n); }catch(...){ unlink(n); throw; } unlink(n); }
		}catch(const exception&e){ res="rejected"; }
		Ev e("ch_bad"); e.i("h",h).t("reader",reader).t("kind",kind).t("res",res).out(); };
	// ch_nosave <h> <writer> <arg>: the device is full after some bytes
	t["ch_nosave"]=[](Args&a){ int h=a.num(); string writer=a.str(); unsigned long long arg=a.u64(); const CH&c=at(chs,h);
		size_t full=0; c.write([&](const char*, unsigned long long k){ full+=k; }); size_t cap=arg%full; string res="saved";
		struct Small : streambuf { size_t left; streamsize xsputn(const char*, streamsize k)override{ size_t d=min(left,(size_t)k); left-=d; return d; } int overflow(int ch)override{ if(!left) return EOF; --left; return ch==EOF?0:ch; } };
		try{
			if(writer=="file") c.save_file("/dev/full"); else if(writer=="dir") c.save_file("/tmp/vf-no-such-directory/x/ch");
			else if(writer=="stream"){ Small b; b.left=cap; ostream o(&b); c.write(o); }
			else c.write([&](const char*, unsigned long long k){ if(k>cap) throw runtime_error("device is full"); cap-=k; });
		}catch(const exception&e){ res="rejected"; }
		Ev("ch_nosave").i("h",h).t("writer",writer).t("res",res).out(); };
	t["ew"]=[](Args&a){ int q=a.num(), w=a.num(); CHQ&Q=at(chq,q); const CH&ch=*Q.ch; auto&ww=at(wts,w); size_t m=ww.size();
		vector<vector<unsigned>> ids(m); for(size_t i=0;i<m;++i) ids[i].push_back(i);
		// saturating addition of ints is associative only if no saturation can happen or if all values have the same sign
		bool small=true; for(unsigned x:ww) if(x>1000000u) small=false;
		vector<int> iw(m); for(size_t i=0;i<m;++i) iw[i]= (small ? i%3==0 : m%2==0) ? -(int)ww[i] : (int)ww[i];
		Ev e("ew"); e.i("q",q).i("w",w);
		auto raw=Q.get_extra_weight_distance(ids, Concat()); auto&pre=xpre; xreset(pre, ch, ids, Concat()); auto pr=Q.get_extra_weight_distance(pre, Concat());
		e.l("raw",raw).l("pre",pr); SaturatedWeightAddition add;
		e.u("u",Q.get_extra_weight_distance(ww,add)); auto&pu=xpu; xreset(pu, ch, ww, add); e.u("up",Q.get_extra_weight_distance(pu,add));
		e.li("ix",iw).i("i",Q.get_extra_weight_distance(iw,add)); auto&pi=xpi; xreset(pi, ch, iw, add); e.i("ip",Q.get_extra_weight_distance(pi,add)); e.out(); };
	// ew_p <q> <w> <dir t|s> <mode>
	t["ew_p"]=[](Args&a){ int q=a.num(), w=a.num(); bool tt=a.str()=="t"; string mode=a.str(); CHQ&Q=at(chq,q); const CH&ch=*Q.ch; auto&ww=at(wts,w); size_t m=ww.size();
		vector<vector<unsigned>> ids(m); for(size_t i=0;i<m;++i) ids[i].push_back(i);
		SaturatedWeightAddition add; Ev e("ew_p"); e.i("q",q).i("w",w);
		auto&pre=xpre; xreset(pre, ch, ids, Concat()); auto&pu=xpu; xreset(pu, ch, ww, add);
		unsigned k = tt ? Q.get_pinned_target_count() : Q.get_pinned_source_count();
		vector<vector<unsigned>> r1, r2; vector<unsigned> u1, u2;
		if(mode=="alloc"){
			if(tt){ r1=Q.get_extra_weight_distances_to_targets(ids,Concat()); r2=Q.get_extra_weight_distances_to_targets(pre,Concat()); u1=Q.get_extra_weight_distances_to_targets(ww,add); u2=Q.get_extra_weight_distances_to_targets(pu,add); }
			else { r1=Q.get_extra_weight_distances_to_sources(ids,Concat()); r2=Q.get_extra_weight_distances_to_sources(pre,Concat()); u1=Q.get_extra_weight_distances_to_sources(ww,add); u2=Q.get_extra_weight_distances_to_sources(pu,add); }
		} else if(mode=="tmp"){
			vector<vector<unsigned>> tmp(ch.node_count(), vector<unsigned>(3,777)); vector<unsigned> tu(ch.node_count(), 777u);
			if(tt){ r1=Q.get_extra_weight_distances_to_targets(ids,Concat(),tmp); r2=Q.get_extra_weight_distances_to_targets(pre,Concat(),tmp); u1=Q.get_extra_weight_distances_to_targets(ww,add,tu); u2=Q.get_extra_weight_distances_to_targets(pu,add,tu); }
			else { r1=Q.get_extra_weight_distances_to_sources(ids,Concat(),tmp); r2=Q.get_extra_weight_distances_to_sources(pre,Concat(),tmp); u1=Q.get_extra_weight_distances_to_sources(ww,add,tu); u2=Q.get_extra_weight_distances_to_sources(pu,add,tu); }
		} else {
			vector<vector<unsigned>> tmp(ch.node_count(), vector<unsigned>(3,777)); vector<unsigned> tu(ch.node_count(), 777u);
			r1.assign(k, vector<unsigned>(2,555)); r2=r1; u1.assign(k,555u); u2=u1;
			if(tt){ Q.get_extra_weight_distances_to_targets(ids,Concat(),tmp,r1); Q.get_extra_weight_distances_to_targets(pre,Concat(),tmp,r2); Q.get_extra_weight_distances_to_targets(ww,add,tu,u1); Q.get_extra_weight_distances_to_targets(pu,add,tu,u2); }
			else { Q.get_extra_weight_distances_to_sources(ids,Concat(),tmp,r1); Q.get_extra_weight_distances_to_sources(pre,Concat(),tmp,r2); Q.get_extra_weight_distances_to_sources(ww,add,tu,u1); Q.get_extra_weight_distances_to_sources(pu,add,tu,u2); }
		}
		e.raw("paths",nested(r1)).raw("pre",nested(r2)).l("u",u1).l("up",u2); e.out(); };
	t["route"]=[](Args&a){ string kind=a.str(); int b=a.num(); Seeds S=seeds(a), T=seeds(a); string w=a.str(); Ev e("route"); e.t("kind",kind).i("b",b).raw("S",seeds_json(S)).raw("T",seeds_json(T));
		if(kind=="ch"){ CHQ q(at(chs,b)); one_route(q,S,T,w,e); } else { CCHQ q(at(mets,b)); one_route(q,S,T,w,e); } e.out(); };
	t["table"]=[](Args&a){ string kind=a.str(); int b=a.num(); string w=a.str(); Ev e("table"); e.t("kind",kind).i("b",b);
		if(kind=="ch"){ CHQ q(at(chs,b)); table(q,at(chs,b).node_count(),w,e); } else { CCHQ q(at(mets,b)); table(q,at(mets,b).cch->node_count(),w,e); } e.out(); };
	// concurrent <threads> <count> (kind b S T what)* : query i is answered by thread i mod threads, all start together
	t["concurrent"]=[](Args&a){ unsigned th=a.u(), k=a.u(), rep=a.u(); struct J{ string kind; int b; Seeds S,T; string what; vector<string> out; }; vector<J> js(k);
		for(auto&j:js){ j.kind=a.str(); j.b=a.num(); j.S=seeds(a); j.T=seeds(a); j.what=a.str(); }
		atomic<bool> go(false); vector<thread> ts;
		for(unsigned i=0;i<th;++i) ts.emplace_back([&,i]{ while(!go) this_thread::yield();
			map<int,unique_ptr<CHQ>> A; map<int,unique_ptr<CCHQ>> B;
			for(unsigned r=0;r<rep;++r) for(unsigned x=i;x<js.size();x+=th){ J&j=js[x]; 
				if(j.what[0]=='t'||j.what[0]=='s'){ // pinned: the nodes of T (S) are pinned, the others are added
					if(j.kind=="ch"){ auto&q=A[j.b]; if(!q) q.reset(new CHQ(*chs.at(j.b))); pinned_route(*q,1000+x,j.b,j.S,j.T,j.what,j.out); } else { auto&q=B[j.b]; if(!q) q.reset(new CCHQ(*mets.at(j.b))); pinned_route(*q,1000+x,j.b,j.S,j.T,j.what,j.out); } continue; }
				Ev e("route"); e.t("kind",j.kind).i("b",j.b).raw("S",seeds_json(j.S)).raw("T",seeds_json(j.T));
				if(j.kind=="ch"){ auto&q=A[j.b]; if(!q) q.reset(new CHQ(*chs.at(j.b))); one_route(*q,j.S,j.T,j.what,e); } else { auto&q=B[j.b]; if(!q) q.reset(new CCHQ(*mets.at(j.b))); one_route(*q,j.S,j.T,j.what,e); }
				if(find(j.out.begin(),j.out.end(),e.s)==j.out.end()) j.out.push_back(e.s); } });
		go=true; for(auto&x:ts) x.join();
		for(auto&j:js) for(auto&o:j.out){ Ev e(""); e.s=o; e.out(); } };

	// together <k> (<what> <args>)* : independent operations, one thread each, all start together; recorded one after the other
	// what: customize <m> | perfect <h> <m> | build <h> <g> <w> <maxpop> | ordered <h> <g> <w> <order> <maxpop> | cch <c> <g> <filter> <order>
	t["together"]=[](Args&a){ unsigned k=a.u(); atomic<bool> go(false); vector<thread> ts; vector<function<void()>> after;
		for(unsigned i=0;i<k;++i){ string what=a.str(); function<void()> f; auto noop=std::function<void(std::string)>();
			if(what=="customize"){ int m=a.num(); Metric*x=&at(mets,m); f=[x]{ for(int r=0;r<5;++r) x->customize(); }; after.push_back([m]{ Ev("customize").i("m",m).out(); }); }
			else if(what=="perfect"){ int h=a.num(), m=a.num(); Metric*x=&at(mets,m); chs[h].reset(new CH); CH*c=chs[h].get(); f=[x,c]{ *c=x->build_contraction_hierarchy_using_perfect_witness_search(); }; after.push_back([h,m]{ Ev("perfect").i("h",h).i("m",m).out(); }); }
			else if(what=="build"||what=="ordered"){ int h=a.num(), gi=a.num(), w=a.num(); vector<unsigned> o; if(what=="ordered") o=a.list(); unsigned mp=a.u(); G*g=&at(graphs,gi); vector<unsigned>*ww=&at(wts,w); chs[h].reset(new CH); CH*c=chs[h].get(); bool ord=what=="ordered";
				f=[=]{ *c= ord?CH::build_given_order(o,g->tail,g->head,*ww,noop,mp):CH::build(g->n,g->tail,g->head,*ww,noop,mp); }; after.push_back([=]{ Ev("ch").i("h",h).i("g",gi).i("w",w).out(); }); }
			else { int c=a.num(), gi=a.num(); bool fl=a.num(); auto order=a.list(); G*g=&at(graphs,gi); given[c]={order,fl}; cchs[c].reset(new CCH); CCH*x=cchs[c].get(); f=[=]{ *x=CCH(order,g->tail,g->head,[](const string&){},fl); }; after.push_back([=]{ Ev("cch").i("c",c).i("g",gi).b("filter",fl).out(); }); }
			ts.emplace_back([&go,f]{ while(!go) this_thread::yield(); f(); }); }
		go=true; for(auto&x:ts) x.join(); for(auto&f:after) f(); };

	t["dij"]=[](Args&a){ int x=a.num(), gi=a.num(); string how=a.str(); G&g=at(graphs,gi); // Dijkstra needs arcs sorted by tail; scripts provide sorted graphs
		if(g.first_out.empty()) g.first_out=invert_vector(g.tail,g.n);
		D&d=djs[x]; if(how=="new"||!d.d){ if(how=="default"){ d.d.reset(new Dijkstra()); d.d->reset(g.first_out,g.tail,g.head);} else d.d.reset(new Dijkstra(g.first_out,g.tail,g.head)); } else if(how=="reset"&&d.g==gi) d.d->reset(); else d.d->reset(g.first_out,g.tail,g.head);
		d.g=gi; Ev("dij").i("x",x).i("g",gi).out(); };
	// many resets, no event: leaves the object in the reset state of its graph (recorded by the following dij event)
	t["d_wrap"]=[](Args&a){ int x=a.num(); unsigned k=a.u(); for(unsigned i=0;i<k;++i) djs[x].d->reset(); };
	t["d_src"]=[](Args&a){ int x=a.num(); unsigned s=a.u(), o=a.u(); if(o==0) djs[x].d->add_source(s); else djs[x].d->add_source(s,o); Ev("d_src").i("x",x).u("s",s).u("off",o).out(); };
	// settle <x> <w> <per> <count>
	t["settle"]=[](Args&a){ int x=a.num(), w=a.num(); unsigned per=a.u(), cnt=a.u(); Dijkstra&d=*djs[x].d; auto&ww=at(wts,w);
		for(unsigned i=0;i<cnt && !d.is_finished();++i){ Dijkstra::SettleResult r;
			if(per==0) r=d.settle(ScalarGetWeight(ww)); else r=d.settle([&](unsigned arc, unsigned tm){ return ww[arc]==inf_weight?inf_weight:ww[arc]+(per-tm%per)%per; });
			Ev("settle").i("x",x).i("w",w).u("per",per).u("node",r.node).u("dist",r.distance).out(); } };
	t["d_all"]=[](Args&a){ int x=a.num(), w=a.num(); auto T=a.list(); Dijkstra&d=*djs[x].d; auto&ww=at(wts,w); G&g=at(graphs,djs[x].g); vector<unsigned> nodes,ds;
		while(!d.is_finished()){ auto r=d.settle(ScalarGetWeight(ww)); nodes.push_back(r.node); ds.push_back(r.distance); if(nodes.size()>g.n) break; }
		Ev e("d_all"); e.i("x",x).i("w",w).l("nodes",nodes).l("settled",ds).b("finished",d.is_finished()); ds.clear(); for(unsigned v=0;v<g.n;++v) ds.push_back(d.get_distance_to(v)); e.l("dists",ds);
		string s="["; for(size_t i=0;i<T.size();++i){ if(i)s+=","; Ev p("p"); p.u("t",T[i]).l("arcs",d.get_arc_path_to(T[i])).l("nodes",d.get_node_path_to(T[i])); s+="{"+p.s.substr(10)+"}"; } e.raw("paths",s+"]"); e.out(); d.reset(); };
	t["d_state"]=[](Args&a){ int x=a.num(); string what=a.str(); Dijkstra&d=*djs[x].d; G&g=at(graphs,djs[x].g); Ev e("d_state"); e.i("x",x).b("finished",d.is_finished());
		string s="["; for(unsigned v=0;v<g.n;++v){ if(v)s+=","; s+=d.was_node_reached(v)?"true":"false"; } e.raw("reached",s+"]");
		vector<unsigned> ds; for(unsigned v=0;v<g.n;++v) ds.push_back(d.get_distance_to(v)); e.l("dists",ds);
		if(what.find('p')!=string::npos){ vector<vector<unsigned>> A,N; for(unsigned v=0;v<g.n;++v){ N.push_back(d.get_node_path_to(v)); A.push_back(d.get_arc_path_to(v)); } e.raw("arcs",nested(A)).raw("nodes",nested(N)); }
		e.out(); };
	return loop(t, []{ clear_all(); logging=false; });
}
