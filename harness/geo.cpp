// Drives geo_dist and GeoPositionToNode. Distances are reported in centimetres; reference distances are part of the script.
#include "h.h"
#include <routingkit/geo_dist.h>
#include <routingkit/geo_position_to_node.h>
#include <math.h>
using namespace RoutingKit; using namespace vh; using namespace std;

static map<int,GeoPositionToNode> idx;
// -3 marks what is not a distance at all (NaN, negative, too large); tested on the bits because of -ffast-math
static long long cm(double d){ uint64_t b; memcpy(&b,&d,8); if(((b>>52)&0x7ff)==0x7ff) return -3; if(d<0||d>2.1e7) return -3; return (long long)(d*100+0.5); }
static vector<double> doubles(Args&a){ unsigned n=a.u(); vector<double>v(n); for(auto&x:v) x=strtod(a.str().c_str(),nullptr); return v; }
static vector<float> floats(Args&a){ unsigned n=a.u(); vector<float>v(n); for(auto&x:v) x=strtof(a.str().c_str(),nullptr); return v; }

int main(){
	Table t;
	// all pairs distances of the given points, in both directions
	t["dist"]=[](Args&a){ auto lat=doubles(a), lon=doubles(a); auto mdeg=a.llist(); auto ml=a.llist(); auto ref=a.llist(); unsigned n=lat.size(); Ev e("dist"); e.i("n",n); e.li("mlat",mdeg); e.li("mlon",ml); e.li("ref",ref);
		vector<long long> d; for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j) d.push_back(cm(geo_dist(lat[i],lon[i],lat[j],lon[j]))); e.li("d",d); e.out(); };
	t["g_new"]=[](Args&a){ int i=a.num(); auto lat=floats(a), lon=floats(a); idx[i]=GeoPositionToNode(lat,lon); Ev e("g_new"); e.i("i",i); e.i("n",lat.size()); e.i("count",idx[i].point_count()); e.out(); };
	t["g_default"]=[](Args&a){ int i=a.num(); idx[i]=GeoPositionToNode(); Ev e("g_default"); e.i("i",i); e.i("count",idx[i].point_count()); e.out(); };
	t["g_copy"]=[](Args&a){ int i=a.num(), j=a.num(); idx[i]=idx[j]; Ev e("g_copy"); e.i("i",i); e.i("j",j); e.out(); };
	t["g_drop"]=[](Args&a){ int i=a.num(); idx.erase(i); Ev e("g_drop"); e.i("i",i); e.out(); };
	// tol and ref (one entry per point) are the specification's view of where the points are
	t["g_near"]=[](Args&a){ int i=a.num(); float lat=strtof(a.str().c_str(),0), lon=strtof(a.str().c_str(),0), rad=strtof(a.str().c_str(),0); long long tol=a.num(); auto ref=a.llist();
		auto r=idx.at(i).find_nearest_neighbor_within_radius(lat,lon,rad); Ev e("g_near"); e.i("i",i); e.i("rad",cm(rad)); e.i("tol",tol); e.li("ref",ref); e.u("id",r.id); e.i("d",cm(r.distance)); e.out(); };
	t["g_all"]=[](Args&a){ int i=a.num(); float lat=strtof(a.str().c_str(),0), lon=strtof(a.str().c_str(),0), rad=strtof(a.str().c_str(),0); long long tol=a.num(); auto ref=a.llist();
		auto r=idx.at(i).find_all_nodes_within_radius(lat,lon,rad); Ev e("g_all"); e.i("i",i); e.i("rad",cm(rad)); e.i("tol",tol); e.li("ref",ref); vector<unsigned>id; vector<long long>d; for(auto&x:r){ id.push_back(x.id); d.push_back(cm(x.distance)); } e.l("ids",id); e.li("ds",d); e.out(); };
	return loop(t,[]{ idx.clear(); });
}
