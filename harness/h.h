// Common parts of the harnesses: script input, JSON event output.
#ifndef VERIF_H_H
#define VERIF_H_H
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <routingkit/constants.h>

namespace vh{
using std::string; using std::vector;

// ---- script tokens of the current line
struct Args{
	vector<string>tok; size_t pos;
	bool more()const{return pos<tok.size();}
	string str(){ if(pos>=tok.size()){ fprintf(stderr,"harness: script too short: %s\n", tok.empty()?"":tok[0].c_str()); exit(97);} return tok[pos++]; }
	long long num(){ return strtoll(str().c_str(), nullptr, 10); }
	unsigned u(){ long long x=num(); return (unsigned)x; } // -1 is invalid_id
	unsigned long long u64(){ return strtoull(str().c_str(), nullptr, 10); }
	vector<unsigned>list(){ unsigned n=u(); vector<unsigned>v(n); for(auto&x:v)x=u(); return v; }
	vector<long long>llist(){ unsigned n=u(); vector<long long>v(n); for(auto&x:v)x=num(); return v; }
	vector<string>slist(){ unsigned n=u(); vector<string>v(n); for(auto&x:v)x=str(); return v; }
	// hex encoded bytes, "-" is empty
	string hex(){ string s=str(), r; if(s=="-")return r; for(size_t i=0;i+1<s.size();i+=2) r.push_back((char)strtol(s.substr(i,2).c_str(),nullptr,16)); return r; }
};

// ---- events
struct Ev{
	string s;
	explicit Ev(const string&op){ s="{\"op\":\""+op+"\""; }
	static string q(const string&x){
		string r="\"";
		for(unsigned char c:x){ char b[8]; if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; }
		return r+"\"";
	}
	Ev&k(const char*n){ s+=",\""; s+=n; s+="\":"; return *this; }
	Ev&i(const char*n, long long v){ k(n); s+=std::to_string(v); return *this; }
	// an unsigned id or weight; invalid_id is written as -1
	static string us(unsigned v){ return v==RoutingKit::invalid_id ? string("-1") : std::to_string(v); }
	// distances: values that do not fit TLC's 31 bit integers are written as -2 so that no specification accepts them silently
	static string ds(unsigned v){ return v==RoutingKit::invalid_id ? string("-1") : v>2147483647u ? string("-2") : std::to_string(v); }
	Ev&u(const char*n, unsigned v){ k(n); s+=ds(v); return *this; }
	Ev&b(const char*n, bool v){ k(n); s+= v?"true":"false"; return *this; }
	Ev&t(const char*n, const string&v){ k(n); s+=q(v); return *this; }
	template<class V> Ev&l(const char*n, const V&v){ k(n); s+="["; bool f=true; for(auto x:v){ if(!f)s+=","; f=false; s+=ds((unsigned)x);} s+="]"; return *this; }
	template<class V> Ev&li(const char*n, const V&v){ k(n); s+="["; bool f=true; for(auto x:v){ if(!f)s+=","; f=false; s+=std::to_string((long long)x);} s+="]"; return *this; }
	template<class V> Ev&lt(const char*n, const V&v){ k(n); s+="["; bool f=true; for(auto&x:v){ if(!f)s+=","; f=false; s+=q(x);} s+="]"; return *this; }
	Ev&raw(const char*n, const string&v){ k(n); s+=v; return *this; }
	void out(){ s+="}\n"; fwrite(s.data(),1,s.size(),stdout); fflush(stdout); }
};

typedef std::function<void(Args&)> Handler;
typedef std::map<string,Handler> Table;

// Reads the script. on_scenario is called at the start of each scenario and must drop all objects.
inline int loop(Table&table, const std::function<void()>&on_scenario){
	std::ios::sync_with_stdio(false);
	string line;
	while(std::getline(std::cin,line)){
		Args a; a.pos=0;
		{ size_t i=0; while(i<line.size()){ while(i<line.size()&&line[i]==' ')++i; size_t j=i; while(j<line.size()&&line[j]!=' ')++j; if(j>i)a.tok.push_back(line.substr(i,j-i)); i=j; } }
		if(a.tok.empty()) continue;
		string op=a.str();
		if(op=="S"){ on_scenario(); printf("S %s\n", a.str().c_str()); fflush(stdout); continue; }
		if(op=="E"){ on_scenario(); printf("E\n"); fflush(stdout); return 0; }
		auto it=table.find(op);
		if(it==table.end()){ fprintf(stderr,"harness: unknown op %s\n",op.c_str()); return 97; }
		it->second(a);
	}
	return 0;
}
}
#endif
