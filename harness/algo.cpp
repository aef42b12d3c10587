// Drives the stateless algorithms: sorting, permutations, inverse vectors, filters, graph utilities, strongly connected components,
// graph fragments, cuts, separators and nested dissection.
#include "h.h"
#include <routingkit/sort.h>
#include <routingkit/permutation.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/filter.h>
#include <routingkit/graph_util.h>
#include <routingkit/min_max.h>
#include <routingkit/strongly_connected_component.h>
#include <routingkit/nested_dissection.h>
#include <routingkit/bit_vector.h>
#include <algorithm>
#include <random>
using namespace RoutingKit; using namespace vh; using namespace std;

// An element whose payload is lost when it is moved from, so that a use after move shows.
struct El{ unsigned key; string tag; El():key(0){} El(unsigned k, unsigned t):key(k),tag(to_string(t)+"#padding-beyond-small-string"){} 
	El(const El&)=default; El&operator=(const El&)=default; El(El&&o):key(o.key),tag(std::move(o.tag)){o.key=0;o.tag="";} El&operator=(El&&o){ if(this!=&o){key=o.key;tag=std::move(o.tag);o.key=0;o.tag="";} return *this; } };
static bool operator<(const El&l, const El&r){return l.key<r.key;}
static vector<long long> tags(const vector<El>&v){ vector<long long>r; for(auto&x:v) r.push_back(x.tag.empty()?-9:atoll(x.tag.c_str())); return r; }
static vector<El> els(const vector<unsigned>&k){ vector<El>v; for(unsigned i=0;i<k.size();++i) v.push_back(El(k[i],i)); return v; }

static BitVector bits(unsigned n, const vector<unsigned>&l){ BitVector b(n,false); for(unsigned x:l) b.set(x); return b; }
static vector<unsigned> members(const BitVector&b){ vector<unsigned>l; for(unsigned i=0;i<b.size();++i) if(b.is_set(i)) l.push_back(i); return l; }
static string frag(const GraphFragment&f){ Ev e("f"); e.l("id",f.global_node_id); e.l("first",f.first_out); e.l("tail",f.tail); e.l("head",f.head); e.l("back",f.back_arc); return "{"+e.s.substr(10)+"}"; }
static string side(const CutSide&c){ Ev e("c"); e.i("n",c.is_node_on_side.size()); e.i("count",c.node_on_side_count); e.i("size",c.cut_size); e.l("m",members(c.is_node_on_side)); return "{"+e.s.substr(10)+"}"; }
static vector<float> floats(Args&a){ unsigned n=a.u(); vector<float>v(n); for(auto&x:v) x=strtof(a.str().c_str(),nullptr); return v; }
static string sep_name; 

int main(){
	Table t;
	t["sort"]=[](Args&a){ auto k=a.list(); unsigned kc=a.u(); const vector<El> v=els(k); Ev e("sort"); e.l("k",k); e.i("kc",kc);
		auto key=[](const El&x){return x.key;}; auto cmp=[](const El&x,const El&y){return x.key>y.key;};
		e.l("pk",compute_sort_permutation_using_key(v,kc,key)); e.l("psk",compute_stable_sort_permutation_using_key(v,kc,key));
		e.l("ik",compute_inverse_sort_permutation_using_key(v,kc,key)); e.l("isk",compute_inverse_stable_sort_permutation_using_key(v,kc,key));
		e.l("pl",compute_sort_permutation_using_less(v)); e.l("psl",compute_stable_sort_permutation_using_less(v));
		e.l("il",compute_inverse_sort_permutation_using_less(v)); e.l("isl",compute_inverse_stable_sort_permutation_using_less(v));
		e.l("pc",compute_sort_permutation_using_comparator(v,cmp)); e.l("psc",compute_stable_sort_permutation_using_comparator(v,cmp));
		e.l("ic",compute_inverse_sort_permutation_using_comparator(v,cmp)); e.l("isc",compute_inverse_stable_sort_permutation_using_comparator(v,cmp));
		vector<El> w;
		e.li("sk",tags(sort_using_key(v,kc,key))); w=v; e.li("skr",tags(sort_using_key(std::move(w),kc,key)));
		e.li("ssk",tags(stable_sort_using_key(v,kc,key))); w=v; e.li("sskr",tags(stable_sort_using_key(std::move(w),kc,key)));
		e.li("sl",tags(sort_using_less(v))); w=v; e.li("slr",tags(sort_using_less(std::move(w))));
		e.li("ssl",tags(stable_sort_using_less(v))); w=v; e.li("sslr",tags(stable_sort_using_less(std::move(w))));
		e.li("sc",tags(sort_using_comparator(v,cmp))); w=v; e.li("scr",tags(sort_using_comparator(std::move(w),cmp)));
		e.li("ssc",tags(stable_sort_using_comparator(v,cmp))); w=v; e.li("sscr",tags(stable_sort_using_comparator(std::move(w),cmp)));
		e.b("isk_",is_sorted_using_key(v,kc,key)); e.b("isl_",is_sorted_using_less(v)); e.b("isc_",is_sorted_using_comparator(v,cmp)); e.li("kept",tags(v));
		e.out(); };
	t["perm"]=[](Args&a){ auto p=a.list(); auto q=a.list(); auto k=a.list(); auto x=a.list(); auto y=a.list(); const vector<El> v=els(k);
		Ev e("perm"); e.l("p",p); e.l("q",q); e.l("x",x); e.l("y",y); vector<El> w;
		e.li("ap",tags(apply_permutation(p,v))); w=v; e.li("apr",tags(apply_permutation(p,std::move(w))));
		e.li("ai",tags(apply_inverse_permutation(p,v))); w=v; e.li("air",tags(apply_inverse_permutation(p,std::move(w))));
		e.l("lr",chain_permutation_first_left_then_right(p,q)); e.l("rl",chain_permutation_first_right_then_left(p,q));
		e.l("inv",invert_permutation(p)); e.l("id",identity_permutation(p.size()));
		e.l("el",apply_permutation_to_elements_of(p,x)); { auto z=x; inplace_apply_permutation_to_elements_of(p,z); e.l("eli",z); }
		e.l("pi",apply_permutation_to_possibly_invalid_elements_of(p,y)); { auto z=y; inplace_apply_permutation_to_possibly_invalid_elements_of(p,z); e.l("pii",z); }
		minstd_rand gen(p.size()*31+x.size()); e.l("rnd",random_permutation(p.size(),gen)); e.out(); };
	t["isperm"]=[](Args&a){ auto p=a.list(); Ev e("isperm"); e.l("p",p); e.b("r",is_permutation(p)); e.out(); };
	t["invvec"]=[](Args&a){ auto v=a.list(); unsigned n=a.u(); Ev e("invvec"); e.l("v",v); e.i("n",n); auto i=invert_vector(v,n); e.l("r",i); e.l("back",invert_inverse_vector(i)); e.out(); };
	t["filter"]=[](Args&a){ unsigned n=a.u(); auto l=a.list(); BitVector b=bits(n,l); vector<unsigned>k(n,0); const vector<El> v=els(k); Ev e("filter"); e.i("n",n); e.l("list",l);
		e.li("keep",tags(keep_element_of_vector_if(b,v))); e.li("rem",tags(remove_element_from_vector_if(b,v)));
		{ auto w=v; inplace_keep_element_of_vector_if(b,w); e.li("ikeep",tags(w)); } { auto w=v; inplace_remove_element_from_vector_if(b,w); e.li("irem",tags(w)); } e.out(); };
	t["minmax"]=[](Args&a){ auto v=a.list(); unsigned d=a.u(), x=a.u(), y=a.u(); Ev e("minmax"); e.l("v",v); e.i("d",d); e.i("x",x); e.i("y",y);
		if(!v.empty()){ e.i("fmin",first_min_element_position_of(v)); e.i("fmax",first_max_element_position_of(v)); e.i("min",min_element_of(v)); e.i("max",max_element_of(v)); }
		e.i("mind",min_element_of(v,d)); e.i("maxd",max_element_of(v,d)); unsigned z=x; min_to(z,y); e.i("minto",z); z=x; max_to(z,y); e.i("maxto",z); e.out(); };
	// all pairs arc lookup; heads sorted per node for the second pair of functions
	t["findarc"]=[](Args&a){ auto first=a.list(); auto head=a.list(); unsigned n=first.size()-1; Ev e("findarc"); e.l("first",first); e.l("head",head);
		vector<unsigned> sh=head; for(unsigned x=0;x<n;++x) sort(sh.begin()+first[x],sh.begin()+first[x+1]); e.l("shead",sh);
		string A="[",B="[",C="[",D="["; for(unsigned x=0;x<n;++x) for(unsigned y=0;y<n;++y){ string c=(x||y)?",":"";
			unsigned r=find_arc_or_return_invalid(first,head,x,y), s=find_arc_or_return_invalid_given_sorted_head(first,sh,x,y); A+=c+Ev::ds(r); C+=c+Ev::ds(s);
			bool ex=false; for(unsigned i=first[x];i<first[x+1];++i) ex|=head[i]==y;
			B+=c+(ex?Ev::ds(find_arc(first,head,x,y)):string("-1")); D+=c+(ex?Ev::ds(find_arc_given_sorted_head(first,sh,x,y)):string("-1")); }
		e.raw("a",A+"]"); e.raw("b",B+"]"); e.raw("c",C+"]"); e.raw("d",D+"]"); e.out(); };
	t["findarcx"]=[](Args&a){ auto xs=a.list(); auto first=a.list(); auto head=a.list(); unsigned n=first.size()-1; Ev e("findarc"); e.l("xs",xs); e.l("first",first); e.l("head",head);
		vector<unsigned> sh=head; for(unsigned x=0;x<n;++x) sort(sh.begin()+first[x],sh.begin()+first[x+1]); e.l("shead",sh); vector<unsigned>A,B,C,D;
		for(unsigned x:xs) for(unsigned y=0;y<n;++y){ A.push_back(find_arc_or_return_invalid(first,head,x,y)); C.push_back(find_arc_or_return_invalid_given_sorted_head(first,sh,x,y));
			bool ex=false; for(unsigned i=first[x];i<first[x+1];++i) ex|=head[i]==y; B.push_back(ex?find_arc(first,head,x,y):invalid_id); D.push_back(ex?find_arc_given_sorted_head(first,sh,x,y):invalid_id); }
		e.l("a",A); e.l("b",B); e.l("c",C); e.l("d",D); e.out(); };
	t["paths"]=[](Args&a){ auto first=a.list(); auto head=a.list(); auto nodes=a.list(); auto arcs=a.list(); unsigned s=a.u(); Ev e("paths"); e.l("first",first); e.l("head",head); e.l("nodes",nodes); e.l("arcs",arcs); e.i("s",s);
		e.l("toarcs",convert_node_path_to_arc_path(first,head,nodes)); if(!arcs.empty()) e.l("tonodes",convert_arc_path_to_node_path(s,head,arcs)); e.out(); };
	t["lexsort"]=[](Args&a){ unsigned ac=a.u(); auto A=a.list(); unsigned bc=a.u(); auto B=a.list(); Ev e("lexsort"); e.l("a",A); e.l("b",B); e.i("ac",ac); e.i("bc",bc);
		e.l("p",compute_sort_permutation_first_by_left_then_by_right(ac,A,bc,B)); e.l("i",compute_inverse_sort_permutation_first_by_left_then_by_right(ac,A,bc,B));
		{ auto c=A; e.l("i2",compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(ac,c,bc,B)); e.l("a2",c); }
		unsigned n=max(ac,bc); e.l("tp",compute_sort_permutation_first_by_tail_then_by_head(n,A,B)); e.l("ti",compute_inverse_sort_permutation_first_by_tail_then_by_head(n,A,B));
		{ auto c=A; e.l("ti2",compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n,c,B)); e.l("ta2",c); }
		{ auto c=A; e.l("tp2",compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n,c,B)); e.l("ta3",c); }
		e.out(); };
	t["scc"]=[](Args&a){ auto first=a.list(); auto head=a.list(); Ev e("scc"); e.l("first",first); e.l("head",head);
		auto r=compute_strongly_connected_components(first,head); e.l("comp",r.component_of); e.i("count",r.component_count);
		auto b=compute_largest_strongly_connected_component(first,head); vector<unsigned>l; for(unsigned i=0;i<b.size();++i) if(b[i]) l.push_back(i); e.i("bn",b.size()); e.l("largest",l); e.out(); };
	// with a certificate (given by the script, checked by the specification)
	t["sccc"]=[](Args&a){ auto first=a.list(); auto head=a.list(); Ev h("h"); for(const char*n:{"root","fa","ft","fd","ba","bd","lev","pos"}) h.l(n,a.list()); Ev e("scc"); e.l("first",first); e.l("head",head); e.raw("h","{"+h.s.substr(10)+"}");
		auto r=compute_strongly_connected_components(first,head); e.l("comp",r.component_of); e.i("count",r.component_count);
		auto b=compute_largest_strongly_connected_component(first,head); vector<unsigned>l; for(unsigned i=0;i<b.size();++i) if(b[i]) l.push_back(i); e.i("bn",b.size()); e.l("largest",l); e.out(); };
	// ---- nested dissection
	t["fragment"]=[](Args&a){ unsigned n=a.u(); auto tail=a.list(); auto head=a.list(); auto f=make_graph_fragment(n,tail,head); Ev e("fragment"); e.i("n",n); e.l("tail",tail); e.l("head",head); e.raw("f",frag(f));
		auto parts=decompose_graph_fragment_into_connected_components(f); string s="["; for(size_t i=0;i<parts.size();++i){ if(i)s+=","; s+=frag(parts[i]); } e.raw("parts",s+"]"); e.out(); };
	// flowc carries a certificate: walks of input arcs and where they start
	t["flow"]=t["flowc"]=[](Args&a){ unsigned n=a.u(); auto tail=a.list(); auto head=a.list(); auto S=a.list(); auto T=a.list(); auto f=make_graph_fragment(n,tail,head);
		BlockingFlow b(f,bits(n,S),bits(n,T)); vector<unsigned> seq(1,b.get_current_flow_intensity()); unsigned rounds=0;
		while(!b.is_finished()){ b.advance(); seq.push_back(b.get_current_flow_intensity()); if(++rounds>4*tail.size()+10) break; }
		Ev e("flow"); e.i("n",n); e.l("tail",tail); e.l("head",head); e.l("S",S); e.l("T",T); e.l("seq",seq); e.b("fin",b.is_finished());
		b.advance(); e.i("after",b.get_current_flow_intensity()); e.b("fin2",b.is_finished());
		e.raw("src",side(b.get_source_cut())); e.raw("tgt",side(b.get_target_cut())); e.raw("bal",side(b.get_balanced_cut()));
		if(a.more()){ auto from=a.list(); e.l("from",from); string w="["; for(size_t i=0;i<from.size();++i){ Ev h("h"); h.l("w",a.list()); if(i)w+=","; w+=h.s.substr(h.s.find("\"w\":")+4); } e.raw("walks",w+"]"); }
		e.out(); };
	t["inertial"]=[](Args&a){ unsigned n=a.u(); auto tail=a.list(); auto head=a.list(); int bal=a.num(); auto lat=floats(a); auto lon=floats(a); auto f=make_graph_fragment(n,tail,head);
		CutSide c=bal<0?inertial_flow(f,lat,lon):inertial_flow(f,bal,lat,lon); Ev e("inertial"); e.i("n",n); e.l("tail",tail); e.l("head",head); e.i("bal",bal); e.raw("cut",side(c));
		CutSide d; d.node_on_side_count=c.node_on_side_count; d.cut_size=c.cut_size; d.is_node_on_side=c.is_node_on_side; pick_smaller_side(d); e.raw("small",side(d));
		e.l("sep",members(derive_separator_from_cut(f,c.is_node_on_side))); e.l("sep2",members(derive_separator_from_cut(f,d.is_node_on_side)));
		if(a.more()){ e.l("x",a.list()); e.l("y",a.list()); } e.out(); };
	t["separator"]=[](Args&a){ unsigned n=a.u(); auto tail=a.list(); auto head=a.list(); auto l=a.list(); auto f=make_graph_fragment(n,tail,head); Ev e("separator"); e.i("n",n); e.l("tail",tail); e.l("head",head); e.l("cut",l);
		e.l("sep",members(derive_separator_from_cut(f,bits(n,l)))); CutSide c; c.is_node_on_side=bits(n,l); c.node_on_side_count=l.size(); c.cut_size=7; pick_smaller_side(c); e.raw("small",side(c)); e.out(); };
	t["ndorder"]=[](Args&a){ unsigned n=a.u(); auto tail=a.list(); auto head=a.list(); auto lat=floats(a), lon=floats(a); unsigned logged=0;
		auto o=compute_nested_node_dissection_order_using_inertial_flow(n,tail,head,lat,lon,[&](const string&){++logged;}); Ev e("ndorder"); e.i("n",n); e.l("order",o); e.out(); };
	// how: iflow, or a separator chosen by a seed among the nodes of the fragment (every connected fragment of at least two nodes has one)
	t["decomp"]=[](Args&a){ unsigned n=a.u(); auto tail=a.list(); auto head=a.list(); string how=a.str(); unsigned seed=a.u(); vector<float>lat,lon; if(how=="iflow"){ lat=floats(a); lon=floats(a); }
		auto f=make_graph_fragment(n,tail,head); minstd_rand gen(seed+1);
		auto sep=[&](const GraphFragment&g)->BitVector{
			if(how=="iflow"){ auto c=inertial_flow(g,lat,lon); pick_smaller_side(c); return derive_separator_from_cut(g,c.is_node_on_side); }
			BitVector b(g.node_count(),false);
			if(how=="one") b.set(gen()%g.node_count()); else if(how=="all") b.set_all(); else { for(unsigned i=0;i<g.node_count();++i) if(gen()%3==0) b.set(i); b.set(gen()%g.node_count()); }
			return b; };
		SeparatorDecomposition d=compute_separator_decomposition(f,sep); Ev e("decomp"); e.i("n",n); e.l("tail",tail); e.l("head",head); e.l("order",d.order);
		vector<unsigned> lc,rs,b,en; for(auto&x:d.tree){ lc.push_back(x.left_child); rs.push_back(x.right_sibling); b.push_back(x.first_separator_vertex); en.push_back(x.last_separator_vertex); }
		e.l("lc",lc); e.l("rs",rs); e.l("b",b); e.l("e",en); e.b("iflow",how=="iflow");
		gen.seed(seed+1); if(how!="iflow") e.l("order2",compute_nested_node_dissection_order(f,sep)); else e.l("order2",compute_nested_node_dissection_order_using_inertial_flow(n,tail,head,lat,lon)); e.out(); };
	return loop(t,[]{});
}
