// C02: buffers in memory and backed by files, moved, swapped, sought and reset: positions, sizes and contents as their names say
// FLAGS: -std=c++11
#include "h.h"
#include "pack_base.h"
#include "classdesc_epilogue.h"
#include <stdlib.h>
#include <memory>
#include <new>
#include <utility>
using namespace classdesc;
using std::string;

enum Kind {mem, rd, wr};
struct Model {Kind kind; string d; size_t size, pos, fpos; string name; unsigned limit; bool sizeKnown;
  Model(): kind(mem), size(0), pos(0), fpos(0), limit(500), sizeKnown(true) {}};

// a buffer in memory that held something else before
struct Box {
  void* at; pack_t* b; Model m;
  Box(): at(malloc(sizeof(pack_t))), b(0) {memset(at,0xA5,sizeof(pack_t));}
  ~Box() {if (b) b->~pack_t(); free(at);}
  Box(const Box&)=delete;
};

static int files=0;

static string contents(const string& n)
{
  string r; FILE* f=fopen(n.c_str(),"rb"); int c;
  if (f) {while ((c=fgetc(f))!=EOF) r+=(char)c; fclose(f);}
  return r;
}

static void make(Box& x, string& hist)
{
  switch (h::rnd(3)) {
  case 0: x.b=new(x.at) pack_t; hist+=" [memory]"; break;
  case 1: {
    x.m.kind=rd; x.m.name="c02f"+h::str(files++); x.m.d=h::rstr(60);
    FILE* f=fopen(x.m.name.c_str(),"wb"); fwrite(x.m.d.data(),1,x.m.d.size(),f); fclose(f);
    x.b=new(x.at) pack_t(x.m.name.c_str(),"rb"); hist+=" [read "+h::str(x.m.d.size())+"]"; break;}
  default:
    x.m.kind=wr; x.m.name="c02f"+h::str(files++);
    x.b=new(x.at) pack_t(x.m.name.c_str(),h::rnd(2)? "wb": "w"); hist+=" [write]";
  }
  if (h::rnd(3)==0) {x.b->recur_max=x.m.limit=h::rnd(1000)+1; }
}

static void check(Box& x, const string& hist)
{
  if (x.m.sizeKnown) CHECK(x.b->size()==x.m.size,"size",hist+" size "+h::str(x.b->size())+" expected "+h::str(x.m.size));
  CHECK(x.b->pos()==x.m.pos,"position",hist+" pos "+h::str(x.b->pos())+" expected "+h::str(x.m.pos));
  if (x.m.kind==mem) CHECK(x.m.size==0 || memcmp(x.b->data(),x.m.d.data(),x.m.size)==0,"contents",hist);
}

static void put(Box& x, const string& s)
{
  if (x.m.kind==mem) {x.m.d+=s; x.m.size=x.m.d.size();}
  else {
    if (s.size()) {if (x.m.d.size()<x.m.fpos+s.size()) x.m.d.resize(x.m.fpos+s.size()); x.m.d.replace(x.m.fpos,s.size(),s); x.m.fpos+=s.size();}
  }
}

static void step(Box*& x, Box*& y, string& hist)
{
  Model& m=x->m; pack_t& b=*x->b;
  switch (h::rnd(11)) {
  case 0: case 1:
    if (m.kind!=rd) {
      string s=h::rstr(20); hist+=" packraw("+h::str(s.size())+")"; b.packraw(s.data(),s.size()); put(*x,s);
      if (m.kind==wr && s.size()) m.sizeKnown=false;
    }
    break;
  case 2:
    if (m.kind!=rd) {
      int v=(int)h::rnd(); hist+=" <<int"; b<<v; put(*x,string((char*)&v,sizeof v)); if (m.kind==wr) m.size+=sizeof v;
    }
    break;
  case 3: case 4: case 5:
    if (m.kind!=wr) {
      size_t p=m.kind==mem? m.pos: m.fpos, rem=p<m.d.size()? m.d.size()-p: 0;
      bool raw=h::rnd(2); size_t q=raw? h::rnd(rem+2): sizeof(int);
      hist+=(raw? " unpackraw("+h::str(q)+")": " >>int");
      bool fits=q<=rem || (q==0 && m.kind!=mem), thrown=false;
      std::vector<char> v(q+4,'~');
      if (m.kind==mem && m.pos>m.d.size()) fits=false;
      try {if (raw) b.unpackraw(&v[0],q); else {int i=0; b>>i; memcpy(&v[0],&i,sizeof i);}} catch (const std::exception&) {thrown=true;}
      CHECK(thrown==!fits,fits? "spurious-truncation-error": "truncation-undetected",hist);
      if (fits && !thrown) {
        CHECK(memcmp(&v[0],m.d.data()+(q? p: 0),q)==0,"bytes-delivered",hist);
        m.pos+=q; m.fpos+=q;
      } else if (m.kind==rd) {
        CHECK(b.pos()==m.pos,"position-after-truncation",hist);
        hist+=" reseto"; b.reseto(); m.pos=m.fpos=0;
      }
    }
    break;
  case 6:
    if (m.kind==rd) {
      long o=(long)h::rnd(m.d.size()+1)-(long)m.fpos;
      if ((long)m.pos+o>=0) {hist+=" seeko("+h::str(o)+")"; CHECK(&b.seeko(o)==&b,"returns-self",hist); m.pos+=o; m.fpos+=o;}
    } else if (m.kind==mem && h::rnd(2)) {
      long o=-(long)h::rnd(m.size+1); hist+=" seeki("+h::str(o)+")"; CHECK(&b.seeki(o)==&b,"returns-self",hist); m.size+=o; m.d.resize(m.size);
    } else if (m.kind==wr && m.sizeKnown && m.size<=m.fpos) {
      long o=-(long)h::rnd(m.size+1); hist+=" seeki("+h::str(o)+")"; CHECK(&b.seeki(o)==&b,"returns-self",hist); m.size+=o; m.fpos+=o;
    }
    break;
  case 7:
    if (h::rnd(2)) {hist+=" reseto"; CHECK(&b.reseto()==&b,"returns-self",hist); m.pos=m.fpos=0;}
    else if (h::rnd(2)) {hist+=" reseti"; CHECK(&b.reseti()==&b,"returns-self",hist); m.size=m.fpos=0; m.sizeKnown=true; if (m.kind==mem) m.d.clear();}
    else if (m.kind==mem) {hist+=" clear"; b.clear(); m.size=m.pos=0; m.d.clear();}
    break;
  case 8: {
    hist+=" swap"; b.swap(*y->b); unsigned l=m.limit; std::swap(x->m,y->m); m.limit=x->b->recur_max; y->m.limit=y->b->recur_max; (void)l; break;}
  case 9:
    hist+=" move="; b=std::move(*y->b); std::swap(x->m,y->m); m.limit=x->b->recur_max; y->m.limit=y->b->recur_max; break;
  case 10: {
    // z takes over what x held
    hist+=" moved";
    std::unique_ptr<Box> z(new Box);
    z->b=new(z->at) pack_t(std::move(b));
    z->m=m;
    CHECK(z->b->recur_max==m.limit,"recursion-limit",hist+" "+h::str(z->b->recur_max)+" expected "+h::str(m.limit));
    // the old one is as good as new
    m=Model(); m.limit=b.recur_max;
    b.clear();
    check(*x,hist+" [moved from]");
    string s=h::rstr(9); b.packraw(s.data(),s.size()); put(*x,s);
    check(*x,hist+" [moved from, written to]");
    delete x; x=z.release();
    break;}
  }
  check(*x,hist); check(*y,hist+" [other buffer]");
}

static void finish(Box* x, const string& hist)
{
  Model m=x->m;
  if (m.kind==rd) {
    // the rest of the file is still there
    x->b->reseto(); std::vector<char> v(m.d.size()+1);
    try {x->b->unpackraw(&v[0],m.d.size()); CHECK(memcmp(&v[0],m.d.data(),m.d.size())==0,"file-contents",hist);}
    catch (const std::exception& e) {h::fail("file-read",hist+" "+e.what());}
  }
  delete x;
  if (m.kind!=mem) {
    string c=contents(m.name);
    CHECK(c==m.d,"file-contents",hist+" file holds "+h::hex(c.data(),c.size())+" expected "+h::hex(m.d.data(),m.d.size()));
    unlink(m.name.c_str());
  }
}

int main()
{
  h::Main m;
  int n=h::scale(1500);
  h::section("histories of moved and file backed buffers");
  for (int t=0; t<n; ++t) {
    Box *x=new Box, *y=new Box; string hist;
    make(*x,hist); make(*y,hist);
    int len=1+h::rnd(14);
    for (int k=0; k<len; ++k) {
      if (h::rnd(4)==0) {hist+=" switch"; std::swap(x,y);}
      step(x,y,hist);
    }
    finish(x,hist); finish(y,hist);
    h::eval(hist);
  }
}
