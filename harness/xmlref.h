// an independent strict reader of (a subset of) XML 1.0: elements, attributes, text, character/entity references,
// CDATA, comments, processing instructions, XML declaration, DOCTYPE.  Written from the recommendation, not from classdesc.
#ifndef XMLREF_H
#define XMLREF_H
#include <string>
#include <vector>
#include <map>
namespace xr {
  using std::string;
  struct Node {
    string name, text;                        // text: all character data of the element itself, in order
    std::vector<std::pair<string,string> > attr;
    std::vector<Node> kids;
    bool mixed;                               // non white space text next to child elements
    Node(const string& n="", const string& t=""): name(n), text(t), mixed(false) {}
    Node& add(const string& n, const string& t="") {kids.push_back(Node(n,t)); return kids.back();}
  };
  struct Bad {string why; Bad(const string& w): why(w) {}};
  inline bool ns(char c) {return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'||c==':'||(c&0x80);}
  inline bool nc(char c) {return ns(c)||(c>='0'&&c<='9')||c=='-'||c=='.';}
  inline bool sp(char c) {return c==' '||c=='\t'||c=='\n'||c=='\r';}
  struct Reader {
    const string& s; size_t p; bool strictChars;
    Reader(const string& s, bool strictChars=false): s(s), p(0), strictChars(strictChars) {}
    bool at(const char* t) const {return s.compare(p,strlen(t),t)==0;}
    char cur() const {if (p>=s.size()) throw Bad("end of input"); return s[p];}
    void need(const char* t) {if (!at(t)) throw Bad(string("expected ")+t); p+=strlen(t);}
    void skip() {while (p<s.size() && sp(s[p])) ++p;}
    string name() {if (!ns(cur())) throw Bad("name expected"); size_t b=p; while (p<s.size() && nc(s[p])) ++p; return s.substr(b,p-b);}
    string until(const char* t) {size_t e=s.find(t,p); if (e==string::npos) throw Bad(string("no ")+t); string r=s.substr(p,e-p); p=e+strlen(t); return r;}
    char ref() { // after &
      string n=until(";");
      if (n=="lt") return '<'; if (n=="gt") return '>'; if (n=="amp") return '&'; if (n=="quot") return '"'; if (n=="apos") return '\'';
      if (n.size()<2 || n[0]!='#') throw Bad("unknown entity "+n);
      int v=0; bool x=n[1]=='x'; size_t i= x? 2: 1;
      if (i>=n.size()) throw Bad("empty reference");
      for (; i<n.size(); ++i) {
        int d=n[i]>='0'&&n[i]<='9'? n[i]-'0': x&&n[i]>='a'&&n[i]<='f'? n[i]-'a'+10: x&&n[i]>='A'&&n[i]<='F'? n[i]-'A'+10: -1;
        if (d<0) throw Bad("bad reference"); v=v*(x?16:10)+d; if (v>0x10ffff) throw Bad("reference out of range");
      }
      if (v>127) throw Bad("reference beyond ASCII");     // outside this subset
      return (char)v;
    }
    bool misc() { // comment or PI
      if (at("<!--")) {p+=4; string c=until("--"); need(">"); return true;}
      if (at("<?")) {p+=2; if (!ns(cur())) throw Bad("PI target"); until("?>"); return true;}
      return false;
    }
    void doctype() {
      need("<!DOCTYPE"); int level=1;
      while (level) {
        char c=cur(); ++p;
        if (c=='"') until("\""); else if (c=='\'') until("'");
        else if (c=='<') level++; else if (c=='>') level--;
      }
    }
    void element(Node& n) {
      need("<"); n.name=name();
      for (;;) {
        bool space=sp(cur()); skip();
        if (at("/>")) {p+=2; return;}
        if (at(">")) {++p; break;}
        if (!space) throw Bad("white space before attribute");
        string a=name(); skip(); need("="); skip();
        char q=cur(); if (q!='"' && q!='\'') throw Bad("unquoted attribute"); ++p;
        string v;
        while (cur()!=q) {
          char c=s[p++];
          if (c=='<') throw Bad("< in attribute");
          if (c=='&') v+=ref(); else v+=c;
        }
        ++p;
        for (size_t i=0; i<n.attr.size(); ++i) if (n.attr[i].first==a) throw Bad("attribute twice");
        n.attr.push_back(std::make_pair(a,v));
      }
      bool nonsp=false;
      for (;;) {
        if (at("</")) {
          p+=2; string e=name(); skip(); need(">");
          if (e!=n.name) throw Bad("end tag "+e+" for "+n.name);
          n.mixed=nonsp && !n.kids.empty();
          return;
        }
        if (at("<![CDATA[")) {p+=9; n.text+=until("]]>"); nonsp=true; continue;}
        if (misc()) continue;
        if (cur()=='<') {n.kids.push_back(Node()); Node k; element(k); n.kids.back()=k; continue;}
        char c=s[p++];
        if (c=='&') {n.text+=ref(); nonsp=true;}
        else {
          if (c=='>' && p>=3 && s.compare(p-3,3,"]]>")==0) throw Bad("]]> in text");
          if (strictChars && (unsigned char)c<32 && !sp(c)) throw Bad("control character");
          n.text+=c; if (!sp(c)) nonsp=true;
        }
      }
    }
    // document: root element is delivered, anything after it is left (position p)
    Node document(bool toEnd) {
      if (at("<?xml")) misc();
      for (;;) {skip(); if (at("<!DOCTYPE")) doctype(); else if (!misc()) break;}
      Node r; element(r);
      if (toEnd) {for (;;) {skip(); if (p>=s.size()) break; if (!misc()) throw Bad("content after the root");}}
      return r;
    }
  };
  inline string num(unsigned long n) {char b[32]; sprintf(b,"%lu",n); return b;}
  // the database the parser is specified to build
  typedef std::map<string,string> Content; typedef std::map<string,unsigned> Count;
  inline void build(const Node& n, const string& prefix, Content& c, Count& k) {
    string scope=prefix.empty()? n.name: prefix+"."+n.name;
    string me=scope+"#"+num(k[scope]++);
    for (size_t i=0; i<n.attr.size(); ++i) c[me+"."+n.attr[i].first]=n.attr[i].second;
    for (size_t i=0; i<n.kids.size(); ++i) build(n.kids[i],me,c,k);
    if (!n.text.empty()) c[me]=n.text;
  }
  inline string show(const Node& n, int d=0) {
    string r=n.name; if (!n.text.empty()) r+="='"+n.text+"'";
    for (size_t i=0; i<n.attr.size(); ++i) r+=" "+n.attr[i].first+"="+n.attr[i].second;
    if (!n.kids.empty()) {r+="("; for (size_t i=0; i<n.kids.size(); ++i) r+=show(n.kids[i])+" "; r+=")";}
    return r;
  }
  // trees agree; white space text of elements with children is layout, as is text of elements expected empty when layout is allowed
  inline bool same(const Node& a, const Node& want, bool layout, string& where) {
    if (a.name!=want.name) {where="element "+a.name+" instead of "+want.name; return false;}
    if (a.attr!=want.attr) {where="attributes of "+a.name; return false;}
    if (a.kids.size()!=want.kids.size()) {where=a.name+" has "+num(a.kids.size())+" children instead of "+num(want.kids.size()); return false;}
    if (a.mixed) {where="text next to children in "+a.name; return false;}
    string t=a.text;
    if (layout && (!a.kids.empty() || want.text=="\1none\1")) {for (size_t i=0; i<t.size(); ++i) if (!sp(t[i])) {where="text in "+a.name; return false;} t="";}
    if (t!=(want.text=="\1none\1"? "": want.text)) {where="text of "+a.name+": '"+t+"' instead of '"+want.text+"'"; return false;}
    for (size_t i=0; i<a.kids.size(); ++i) if (!same(a.kids[i],want.kids[i],layout,where)) {where=a.name+"/"+where; return false;}
    return true;
  }
  inline string quote(const string& t) {
    string r;
    for (size_t i=0; i<t.size(); ++i)
      switch (t[i]) {
      case '&': r+= "&amp;"; break; case '<': r+="&lt;"; break; case '>': r+="&gt;"; break;
      case '"': r+="&quot;"; break; case '\'': r+="&apos;"; break;
      default: r+=t[i];
      }
    return r;
  }
}
#endif
