// Reading OSM data: PBF decoder, id mapping, routing graphs, turn restrictions, profiles.
#include "h.h"
#include <routingkit/osm_decoder.h>
#include <routingkit/osm_graph_builder.h>
#include <routingkit/osm_profile.h>
#include <routingkit/osm_simple.h>
#include <fstream>
#include <new>
#include <stdexcept>
#include <algorithm>
#include <cmath>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
using namespace RoutingKit; using namespace vh; using namespace std;

static string dir;
static void clean(){ if(dir.empty()) return; if(DIR*d=opendir(dir.c_str())){ while(dirent*e=readdir(d)){ string n=e->d_name; if(n!="."&&n!="..") unlink((dir+"/"+n).c_str()); } closedir(d); } }
static void mkscratch(){ const char*b=getenv("VERIF_TMP"); struct stat st; string p=(b&&!stat(b,&st)?string(b):string("/tmp"))+"/osm-XXXXXX"; vector<char>v(p.begin(),p.end()); v.push_back(0); if(!mkdtemp(&v[0])) exit(96); dir=&v[0]; }
static string path(const string&n){ return dir+"/"+n; }

static string tags_json(const TagMap&tags){ string s="["; bool f=true; for(auto x:tags){ if(!f) s+=","; f=false; s+="{\"k\":"+Ev::q(x.key)+",\"v\":"+Ev::q(x.value)+"}"; } return s+"]"; }
static string nano(double x){ return to_string(llround(x*1e9)); }
static long long seven(float x){ return llround((double)x*1e7); }
static vector<long long> sevens(const vector<float>&v){ vector<long long>r; for(float x:v) r.push_back(seven(x)); return r; }
static string tag(const TagMap&t, const char*k){ const char*v=t[k]; return v?v:""; }
struct UserStop{}; struct UserLogic : logic_error{ UserLogic():logic_error("user"){} }; struct UserRun : runtime_error{ UserRun():runtime_error("user"){} }; struct UserAlloc : bad_alloc{};
static bool logging=false; static unsigned long long log_bytes=0;
static function<void(const string&)> logger(){ if(!logging) return nullptr; return [](const string&m){ log_bytes+=m.size(); }; }

static OSMRoutingIDMapping mapping; 
static void ids(Ev&e, const char*n, const BitVector&b){ e.k(n); e.s+="["; bool f=true; for(uint64_t i=0;i<b.size();++i) if(b.is_set(i)){ if(!f) e.s+=","; f=false; e.s+=to_string(i); } e.s+="]"; }

template<class G> static void common(Ev&e, const G&g){ e.l("first_out",g.first_out); e.l("head",g.head); e.l("dist",g.geo_distance); e.li("lat",sevens(g.latitude)); e.li("lon",sevens(g.longitude)); e.i("nc",g.node_count()); e.i("ac",g.arc_count()); }
static OSMWayDirectionCategory tag_dir(const TagMap&t){ string d=tag(t,"dir"); return d=="f"?OSMWayDirectionCategory::only_open_forwards:d=="b"?OSMWayDirectionCategory::only_open_backwards:d=="c"?OSMWayDirectionCategory::closed:OSMWayDirectionCategory::open_in_both; }
static string dirname_of(OSMWayDirectionCategory d){ return d==OSMWayDirectionCategory::only_open_forwards?"f":d==OSMWayDirectionCategory::only_open_backwards?"b":d==OSMWayDirectionCategory::closed?"c":d==OSMWayDirectionCategory::open_in_both?"2":"?"; }
static string bytes(const string&x){ string s="["; for(size_t i=0;i<x.size();++i){ if(i)s+=","; s+=to_string((unsigned)(unsigned char)x[i]); } return s+"]"; }

int main(){
	mkscratch();
	Table t;
	t["log"]=[](Args&a){ logging=a.u(); };
	// the abstract content and the bytes that represent it
	t["file"]=[](Args&a){ string n=a.str(); string raw=a.hex(); string js=a.str(); ofstream o(path(n),ios::binary); o.write(raw.data(),raw.size()); o.close(); Ev e("file"); e.t("f",n); e.raw("blocks",js); e.out(); };
	t["read"]=[](Args&a){ string n=a.str(), mode=a.str(); bool N=a.u(),W=a.u(),R=a.u(); unsigned stop=a.u(), kind=stop/100; stop%=100; string calls="["; unsigned k=0;
		auto add=[&](const string&s){ if(calls.size()>1) calls+=","; calls+=s; if(++k==stop){ switch(kind){ case 0: throw UserStop(); case 1: throw UserLogic(); case 2: throw UserRun(); default: throw UserAlloc(); } } };
		function<void(uint64_t,double,double,const TagMap&)> nc; function<void(uint64_t,const vector<uint64_t>&,const TagMap&)> wc; function<void(uint64_t,const vector<OSMRelationMember>&,const TagMap&)> rc;
		if(N) nc=[&](uint64_t id,double la,double lo,const TagMap&tg){ add("{\"t\":\"n\",\"id\":\""+to_string(id)+"\",\"lat\":\""+nano(la)+"\",\"lon\":\""+nano(lo)+"\",\"tags\":"+tags_json(tg)+"}"); };
		if(W) wc=[&](uint64_t id,const vector<uint64_t>&l,const TagMap&tg){ string s="["; for(size_t i=0;i<l.size();++i) s+=(i?",\"":"\"")+to_string(l[i])+"\""; add("{\"t\":\"w\",\"id\":\""+to_string(id)+"\",\"nodes\":"+s+"],\"tags\":"+tags_json(tg)+"}"); };
		if(R) rc=[&](uint64_t id,const vector<OSMRelationMember>&l,const TagMap&tg){ string s="["; for(size_t i=0;i<l.size();++i) s+=string(i?",":"")+"{\"t\":"+to_string(l[i].type==OSMIDType::node?0:l[i].type==OSMIDType::way?1:2)+",\"id\":\""+to_string(l[i].id)+"\",\"role\":"+Ev::q(l[i].role)+"}"; add("{\"t\":\"r\",\"id\":\""+to_string(id)+"\",\"mem\":"+s+"],\"tags\":"+tags_json(tg)+"}"); };
		string res="ok"; try{ if(mode=="unordered") unordered_read_osm_pbf(path(n),nc,wc,rc,logger()); else ordered_read_osm_pbf(path(n),nc,wc,rc,logger(),mode=="forced"); }catch(UserStop&){ res="user"; }catch(UserLogic&){ res="user"; }catch(UserRun&){ res="user"; }catch(UserAlloc&){ res="user"; }catch(exception&){ res="error"; }
		Ev e("read"); e.t("f",n); e.t("mode",mode); string F="["; for(auto p:{make_pair(N,"n"),make_pair(W,"w"),make_pair(R,"r")}) if(p.first) F+=string(F.size()>1?",":"")+"\""+p.second+"\""; e.raw("F",F+"]"); e.i("stop",stop); e.t("res",res); e.raw("calls",calls+"]"); e.out(); };
	t["map"]=[](Args&a){ string n=a.str(); bool cb=a.u(), all=a.u(); function<bool(uint64_t,const TagMap&)> nc; if(cb) nc=[](uint64_t,const TagMap&tg){ return tag(tg,"rn")=="1"; };
		mapping=load_osm_id_mapping_from_pbf(path(n),nc,[](uint64_t,const TagMap&tg){ return tag(tg,"use")=="1"; },logger(),all);
		Ev e("map"); e.t("f",n); e.b("cb",cb); e.b("all",all); ids(e,"model",mapping.is_modelling_node); ids(e,"routing",mapping.is_routing_node); ids(e,"ways",mapping.is_routing_way); e.out(); };
	t["graph"]=[](Args&a){ string n=a.str(), gm=a.str(); bool turn=a.u(), forced=a.u(), wcb=a.u(); string calls="["; 
		function<OSMWayDirectionCategory(uint64_t,unsigned,const TagMap&)> wc; if(wcb) wc=[&](uint64_t id,unsigned l,const TagMap&tg){ calls+=string(calls.size()>1?",":"")+"{\"w\":"+to_string(id)+",\"l\":"+to_string(l)+"}"; return tag_dir(tg); };
		function<void(uint64_t,const vector<OSMRelationMember>&,const TagMap&,function<void(OSMTurnRestriction)>)> td; if(turn) td=[](uint64_t id,const vector<OSMRelationMember>&m,const TagMap&tg,function<void(OSMTurnRestriction)>f){ decode_osm_car_turn_restrictions(id,m,tg,f,logger()); };
		auto g=load_osm_routing_graph_from_pbf(path(n),mapping,wc,td,logger(),forced,gm=="all"?OSMRoadGeometry::uncompressed:gm=="fl"?OSMRoadGeometry::first_and_last:OSMRoadGeometry::none);
		Ev e("graph"); e.t("f",n); e.t("geom",gm); e.b("turn",turn); e.b("wcb",wcb); common(e,g); e.l("way",g.way); e.l("anti",g.is_arc_antiparallel_to_way); e.l("ff",g.forbidden_turn_from_arc); e.l("ft",g.forbidden_turn_to_arc); e.l("fmn",g.first_modelling_node); e.li("mlat",sevens(g.modelling_node_latitude)); e.li("mlon",sevens(g.modelling_node_longitude)); e.raw("calls",calls+"]"); e.out(); };
	t["simple"]=[](Args&a){ string n=a.str(), p=a.str(); bool all=a.u(), forced=a.u(); Ev e("simple"); e.t("f",n); e.t("prof",p); e.b("all",all);
		if(p=="car"){ auto g=simple_load_osm_car_routing_graph_from_pbf(path(n),logger(),all,forced); common(e,g); e.l("attr",g.travel_time); e.l("ff",g.forbidden_turn_from_arc); e.l("ft",g.forbidden_turn_to_arc); }
		else if(p=="bike"){ auto g=simple_load_osm_bicycle_routing_graph_from_pbf(path(n),logger(),all,forced); common(e,g); e.l("attr",g.arc_comfort_level); e.raw("ff","[]"); e.raw("ft","[]"); }
		else { auto g=simple_load_osm_pedestrian_routing_graph_from_pbf(path(n),logger(),all,forced); common(e,g); e.l("attr",vector<unsigned>(g.arc_count(),0)); e.raw("ff","[]"); e.raw("ft","[]"); } e.out(); };
	// errors while loading: everything but a std::exception ends the process
	t["load_err"]=[](Args&a){ string n=a.str(), what=a.str(); bool ok=true; try{ if(what=="map") load_osm_id_mapping_from_pbf(path(n),nullptr,[](uint64_t,const TagMap&){return true;},logger()); else if(what=="car") simple_load_osm_car_routing_graph_from_pbf(path(n),logger()); else if(what=="bike") simple_load_osm_bicycle_routing_graph_from_pbf(path(n),logger()); else simple_load_osm_pedestrian_routing_graph_from_pbf(path(n),logger()); }catch(exception&){ ok=false; } Ev e("load_err"); e.t("f",n); e.t("what",what); e.b("ok",ok); e.out(); };
	t["prof"]=[](Args&a){ string js=a.str(); unsigned k=a.u(); vector<string> ks(k),vs(k); for(unsigned i=0;i<k;++i){ ks[i]=a.hex(); vs[i]=a.hex(); } TagMap tg; tg.build(k,[&](uint64_t i){return ks[i].c_str();},[&](uint64_t i){return vs[i].c_str();});
		auto L=logger(); Ev e("prof"); e.raw("tags",js);
		e.b("car",is_osm_way_used_by_cars(7,tg,L)); e.b("bike",is_osm_way_used_by_bicycles(7,tg,L)); e.b("foot",is_osm_way_used_by_pedestrians(7,tg,L)); e.t("cardir",dirname_of(get_osm_car_direction_category(7,tg,L))); e.t("bikedir",dirname_of(get_osm_bicycle_direction_category(7,tg,L)));
		e.u("speed",get_osm_way_speed(7,tg,L)); e.i("comfort",get_osm_way_bicycle_comfort_level(7,tg,L)); e.i("minc",get_min_bicycle_comfort_level()); e.i("maxc",get_max_bicycle_comfort_level()); e.t("name",get_osm_way_name(7,tg,L)); e.out(); };
	t["restr"]=[](Args&a){ unsigned k=a.u(); vector<string> ks(k),vs(k); for(unsigned i=0;i<k;++i){ ks[i]=a.hex(); vs[i]=a.hex(); } unsigned m=a.u(); vector<OSMRelationMember> ml; vector<string> roles(m); string ms="["; for(unsigned i=0;i<m;++i){ unsigned ty=a.u(); uint64_t id=a.u64(); roles[i]=a.hex(); ml.push_back({ty==0?OSMIDType::node:ty==1?OSMIDType::way:OSMIDType::relation,id,0}); ms+=string(i?",":"")+"{\"t\":"+to_string(ty)+",\"i\":"+to_string(id)+",\"role\":"+Ev::q(roles[i])+"}"; } for(unsigned i=0;i<m;++i) ml[i].role=roles[i].c_str();
		TagMap tg; tg.build(k,[&](uint64_t i){return ks[i].c_str();},[&](uint64_t i){return vs[i].c_str();}); string out="["; decode_osm_car_turn_restrictions(99,ml,tg,[&](OSMTurnRestriction r){ const char*d[]={"left_turn","right_turn","straight_on","u_turn"};
			out+=string(out.size()>1?",":"")+"{\"rel\":"+to_string(r.osm_relation_id)+",\"cat\":\""+(r.category==OSMTurnRestrictionCategory::mandatory?"only":"no")+"\",\"dir\":\""+(r.direction==OSMTurnDirection::left_turn?d[0]:r.direction==OSMTurnDirection::right_turn?d[1]:r.direction==OSMTurnDirection::straight_on?d[2]:d[3])+"\",\"from\":"+to_string(r.from_way)+",\"via\":"+(r.via_node==(uint64_t)-1?string("-1"):to_string(r.via_node))+",\"to\":"+to_string(r.to_way)+"}"; },logger());
		Ev e("restr"); string s="["; for(unsigned i=0;i<k;++i) s+=string(i?",":"")+"{\"k\":"+Ev::q(ks[i])+",\"v\":"+Ev::q(vs[i])+"}"; e.raw("tags",s+"]"); e.raw("mem",ms+"]"); e.raw("out",out+"]"); e.out(); };
	int rc=loop(t,[]{ mapping=OSMRoutingIDMapping(); logging=false; clean(); });
	clean(); rmdir(dir.c_str());
	return rc;
}
