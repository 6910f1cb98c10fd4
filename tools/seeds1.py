import sys; sys.path.insert(0,'/verif/tools')
from mkseed import make
HT='''#include "html_parser.hpp"
#include <string>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
namespace mp = metaproxy_1;
struct E : mp::HTMLParserEvent { std::string o;
 void s(const char *p,int n){o.append(p,n);}
 void openTagStart(const char*t,int n){o+="[open ";s(t,n);o+="]";}
 void anyTagEnd(const char*t,int n,int c){o+=c?"[close-end ":"[end ";s(t,n);o+="]";}
 void attribute(const char*t,int n,const char*a,int an,const char*v,int vn,const char*sep){o+="[attr ";s(a,an);if(v){o+="=";s(v,vn);}o+="]";}
 void closeTag(const char*t,int n){o+="[/";s(t,n);o+="]";}
 void text(const char*v,int n){o+="[text ";s(v,n);o+="]";}
};
static std::string run(const char *d){ size_t n=strlen(d)+1; char *b=(char*)malloc(n); memcpy(b,d,n); E e; mp::HTMLParser p; p.parse(e,b); free(b); return e.o; }
'''
make("html-quote-eof","C01",[("src/html_parser.cpp","            v1 = i;\n            if (cp[i])\n                i++;\n","            v1 = i++;\n")],
 HT+'int main(){ run("<a b=\\"c"); run("x<img src=\'y"); return 0; }',["html_parser"],
 "a document that ends inside a quoted attribute value","the tokenizer steps over the terminating NUL and reads beyond the document",extra_flags="-fsanitize=address")
make("html-script-ws","C02",[("src/html_parser.cpp","                    int ws = skipSpace(cp + 6);\n                    if (cp[ws + 6] == '>')","                    if (!strchr(SPACECHR, cp[6]))")],
 HT+r'''int main(){ std::string r=run("<script>a</script >b<i>c</i>"); if(r.find("[open i]")==std::string::npos){puts(r.c_str());return 1;}
 r=run("<script>a</script/x<i>"); if(r.find("[open i]")!=std::string::npos){puts(r.c_str());return 2;} return 0;}''',["html_parser"],
 "a script end tag that is followed by white space or by something other than >","script content is taken for markup, or markup for script content")
UR='''#include <metaproxy/xmlutil.hpp>
#include <libxml/parser.h>
#include <string.h>
#include <stdio.h>
#include <string>
static std::string run(const char *rec,const char *r){ xmlDoc *d=xmlParseMemory(rec,strlen(rec)); std::string s=metaproxy_1::xml::url_recipe_handle(d,r); xmlFreeDoc(d); return s; }
'''
make("recipe-escaped-brace","C03",[("src/url_recipe.cpp","            int c_check = c;\n            if (c_prev == '\\\\')\n                c_check = 0;\n\n            if (c_check == '}')","            int c_check = c;\n            if (c_prev == '\\\\' && step > 0)\n                c_check = 0;\n\n            if (c_check == '}' || (c == '}' && step == 3))")],
 UR+r'''int main(){ std::string s=run("<m><metadata type='a\\}b'>X</metadata><metadata type='a\\'>Y</metadata></m>","${a\\}b}"); if(s!="X"){puts(s.c_str());return 1;} return 0;}''',["url_recipe","xmlutil"],
 "a recipe whose variable name has an escaped brace","the reference ends at the escaped brace")
make("getbool-comment","C04",[("src/xmlutil.cpp","    if (ptr && ptr->type != XML_TEXT_NODE)\n        ptr = ptr->children;\n    if (ptr && ptr->type == XML_TEXT_NODE && ptr->content)\n    {\n        if (!strcmp","    if (ptr && ptr->type != XML_TEXT_NODE && ptr->children)\n        ptr = ptr->children;\n    if (ptr && ptr->content)\n    {\n        if (!strcmp")],
 UR+r'''int main(){ xmlDoc *d=xmlParseMemory("<a><!--true--></a>",18); bool b=metaproxy_1::xml::get_bool(xmlDocGetRootElement(d),false); bool c=metaproxy_1::xml::get_bool(xmlDocGetRootElement(d)->children,false); 
 d=xmlParseMemory("<a><!--x--></a>",15); bool e=metaproxy_1::xml::get_bool(xmlDocGetRootElement(d),true); return b||c||!e; }''',["xmlutil"],
 "an element whose first child is a comment","the comment's text is taken for the boolean instead of the default")
FX='''#include "router_flexml.hpp"
#include "factory_filter.hpp"
#include <metaproxy/filter.hpp>
namespace metaproxy_1 { class Package; }
#include <stdio.h>
#include <string>
namespace mp = metaproxy_1;
static int starts;
struct F : mp::filter::Base { void process(mp::Package&) const{} void configure(const xmlNode*,bool,const char*){} void start() const{starts++;} void stop(int) const{} };
static mp::filter::Base *mk(){return new F;}
#define NS "xmlns='http://indexdata.com/metaproxy'"
static bool ok(std::string x){ mp::FactoryFilter f; f.add_creator("t",mk); try { mp::RouterFleXML r("<metaproxy " NS ">"+x+"</metaproxy>",f,true); return true; } catch (std::runtime_error &e) { return false; } }
'''
make("flexml-nested-route-check","C05",[("src/router_flexml.cpp","            check_routes_in_filters(n);\n        }","            if (n && mp::xml::is_element_mp(n, \"filters\"))\n                check_routes_in_filters(n);\n        }")],
 FX+r'''int main(){ if(!ok("<start route='s'/><routes><route id='s'><filters><filter type='t'><x route='s'/></filter></filters></route></routes>")) return 1;
 if(ok("<start route='s'/><routes><route id='s'><filters><filter type='t'><x route='nope'/></filter></filters></route></routes>")) return 2; return 0;}''',["router_flexml","factory_filter","filter","xmlutil"],
 "a filter inside a <filters> group of a route that names a route which does not exist","the configuration is accepted although a referenced route is missing")
make("flexml-clone-restarts","C06",[("src/router_flexml.cpp","    p->m_filter_it = m_filter_it;","    p->m_filter_it = m_filter_it;\n    if (p->m_filter_it == m_route_it->second.m_list.end())\n        p->m_filter_it = m_route_it->second.m_list.begin();")],
 FX+r'''int main(){ mp::FactoryFilter f; f.add_creator("t",mk); mp::RouterFleXML r("<metaproxy " NS "><start route='s'/><routes><route id='s'><filter type='t'/></route></routes></metaproxy>",f,true);
 mp::RoutePos *p=r.createpos(); if(!p->move(0))return 1; mp::RoutePos *q=p->clone(); if(q->move(0)) return 2; if(p->move(0))return 3; return 0;}''',["router_flexml","factory_filter","filter","xmlutil"],
 "a position cloned after the last filter of its route was visited","the clone starts the route again instead of standing at its end")
make("flexml-start-once","C07",[("src/router_flexml.cpp","            (*it)->start();","            if (it == route_it->second.m_list.begin() || std::prev(it)->get() != it->get())\n                (*it)->start();")],
 FX+r'''int main(){ mp::FactoryFilter f; f.add_creator("t",mk); mp::RouterFleXML r("<metaproxy " NS "><start route='s'/><filters><filter id='a' type='t'/></filters><routes><route id='s'><filter refid='a'/><filter refid='a'/></route></routes></metaproxy>",f,true);
 r.start(); return starts!=2;}''',["router_flexml","factory_filter","filter","xmlutil"],
 "a route that holds the same filter twice in a row","start reaches the filter only once for two places")
make("factory-replace","C08",[("src/factory_filter.cpp","    return m_p->m_fcm.insert(Rep::CallbackMap::value_type(fi, cfc)).second;","    CreateFilterCallback &slot = m_p->m_fcm[fi];\n    bool fresh = !slot;\n    slot = cfc;\n    return fresh;")],
 FX+r'''static mp::filter::Base *mk2(){return 0;}
int main(){ mp::FactoryFilter f; if(!f.add_creator("t",mk))return 1; if(f.add_creator("t",mk2))return 2; if(!f.create("t"))return 3; return 0;}''',["factory_filter","filter"],
 "a second registration of a type followed by a creation","the second registration is reported as refused but replaces the first creator")
make("origin-peer","C09",[("src/origin.cpp","        size_t pos1 = m_address.rfind(' ', pos2 - 1);","        size_t pos1 = m_address.find(' ');\n        if (pos1 == pos2)\n            pos1 = std::string::npos;")],
 r'''#include <metaproxy/origin.hpp>
#include <stdio.h>
int main(){ metaproxy_1::Origin o; o.set_tcpip_address("1.1.1.1 2.2.2.2",1); if(o.get_address()!="1.1.1.1")return 1; o.set_tcpip_address("3.3.3.3",2); if(o.get_address()!="1.1.1.1")return 2; o.set_tcpip_address("4.4.4.4",2); if(o.get_address()!="1.1.1.1")return 3; return 0;}''',["origin"],
 "two forwarded-for values stacked on a connection","the peer address is a mixture of forwarded values and the peer")
make("session-lock","C10",[("include/metaproxy/session.hpp","            boost::mutex::scoped_lock scoped_lock(m_mutex);\n            ++m_global_id;\n            m_id =  m_global_id;","            {\n                boost::mutex::scoped_lock scoped_lock(m_mutex);\n                ++m_global_id;\n            }\n            m_id =  m_global_id;")],
 r'''#include <metaproxy/session.hpp>
#include <thread>
#include <vector>
#include <set>
#include <atomic>
// the window is a few instructions wide: many threads, many rounds
int main(){ std::atomic<int> bad(0); for(int round=0; round<200 && !bad; round++){ std::vector<std::vector<unsigned long>> ids(8); std::vector<std::thread> t; std::atomic<int> go(0);
 for(int i=0;i<8;i++) t.emplace_back([&,i]{ ids[i].reserve(20000); while(!go); for(int k=0;k<20000;k++){ metaproxy_1::Session s; ids[i].push_back(s.id()); } }); go=1; for(auto&x:t)x.join();
 std::set<unsigned long> all; for(auto&v:ids)for(auto x:v)if(!all.insert(x).second)bad=1; } return bad; }''',["session"],
 "two threads that create a session at the same time","two sessions get the same id")
