// C02: pack_t behaves as a FIFO byte buffer; reading past the end raises an error and changes nothing
// FLAGS: -std=c++98
#include "h.h"
#include "pack_base.h"
#include "classdesc_epilogue.h"
#include <limits.h>
using namespace classdesc;
using std::string;
typedef unsigned long long ull;

// reference model of the buffer
struct Model {string d; size_t pos; Model(): pos(0) {}};

static bool same(pack_t& b, const Model& m)
{
  return b.size()==m.d.size() && b.pos()==m.pos && (m.d.empty() || memcmp(b.data(),m.d.data(),m.d.size())==0);
}

static void compare(pack_t& b, const Model& m, const string& hist)
{
  CHECK(same(b,m),"buffer-contents",hist+" size="+h::str(b.size())+" expected "+h::str(m.d.size())+" pos="+h::str(b.pos())+" expected "+h::str(m.pos));
  CHECK(bool(b)==(m.pos<m.d.size()),"operator-bool",hist);
}

static void histories(int n)
{
  h::section("histories of buffer operations");
  for (int t=0; t<n; ++t) {
    size_t presz=h::rnd(5)==0? h::rnd(9): 0;
    pack_t b(presz), b2; Model m, m2;
    m.d.resize(presz);
    for (size_t i=0; i<presz; ++i) {b.data()[i]=(char)i; m.d[i]=(char)i;}
    pack_t *pb=&b, *pb2=&b2; Model *pm=&m, *pm2=&m2;
    string hist="pack_t("+h::str(presz)+")";
    int len=1+h::rnd(14);
    for (int k=0; k<len; ++k) {
      switch (h::rnd(12)) {
      case 0: case 1: {string s=h::rstr(20); hist+=" packraw("+h::str(s.size())+")"; pb->packraw(s.data(),s.size()); pm->d+=s; break;}
      case 2: {int x=(int)h::interesting(32); hist+=" <<int("+h::str(x)+")"; (*pb)<<x; pm->d.append((char*)&x,sizeof x); break;}
      case 3: {double x=(double)h::rnd(); hist+=" <<double"; (*pb)<<x; pm->d.append((char*)&x,sizeof x); break;}
      case 4: case 5: case 6: {
        size_t rem=pm->pos<pm->d.size()? pm->d.size()-pm->pos: 0, q=0;
        switch (h::rnd(8)) {
        case 0: q=rem; break;
        case 1: q=rem+1; break;
        case 2: q=ULONG_MAX-h::rnd(3); break;
        case 3: q=ULONG_MAX-pm->pos+1+h::rnd(3); break;
        default: q=h::rnd(rem+1);
        }
        hist+=" unpackraw("+h::str(q)+")";
        bool fits=pm->pos<=pm->d.size() && q<=rem;
        std::vector<char> out(fits? q+8: 64,'~'), before=out;
        bool thrown=false;
        try {pb->unpackraw(&out[0],q);} catch (const std::exception&) {thrown=true;}
        CHECK(thrown==!fits,fits? "spurious-truncation-error": "truncation-undetected",hist);
        if (fits && !thrown) {
          CHECK(memcmp(&out[0],pm->d.data()+pm->pos,q)==0,"bytes-delivered",hist);
          CHECK(memcmp(&out[q],"~~~~~~~~",8)==0,"overrun",hist);
          pm->pos+=q;
        } else if (thrown) CHECK(out==before,"written-on-truncation",hist);
        break;}
      case 7: {
        long x=0x5a5a5a5a5a5a5a5aL, x0=x; hist+=" >>long";
        bool fits=pm->pos<=pm->d.size() && pm->d.size()-pm->pos>=sizeof x, thrown=false;
        try {(*pb)>>x;} catch (const std::exception&) {thrown=true;}
        CHECK(thrown==!fits,fits? "spurious-truncation-error": "truncation-undetected",hist);
        if (fits) {CHECK(memcmp(&x,pm->d.data()+pm->pos,sizeof x)==0,"bytes-delivered",hist); pm->pos+=sizeof x;}
        else CHECK(x==x0,"written-on-truncation",hist);
        break;}
      case 8:
        switch (h::rnd(5)) {
        case 0: hist+=" reseti"; CHECK(&pb->reseti()==pb,"returns-self",hist); pm->d.clear(); break;
        case 1: hist+=" reseto"; CHECK(&pb->reseto()==pb,"returns-self",hist); pm->pos=0; break;
        case 2: {long o=-(long)h::rnd(pm->d.size()+1); hist+=" seeki("+h::str(o)+")"; CHECK(&pb->seeki(o)==pb,"returns-self",hist); pm->d.resize(pm->d.size()+o); break;}
        case 3: {long o=(long)h::rnd(2*pm->pos+4)-(long)pm->pos; hist+=" seeko("+h::str(o)+")"; CHECK(&pb->seeko(o)==pb,"returns-self",hist); pm->pos+=o; break;}
        case 4: if (h::rnd(3)==0) {hist+=" clear"; pb->clear(); pm->d.clear(); pm->pos=0;} break;
        }
        break;
      case 9: {size_t n2=pm->d.size()+h::rnd(10)+1; hist+=" resize("+h::str(n2)+")"; size_t old=pm->d.size(); pb->resize(n2); for (size_t i=old; i<n2; ++i) pb->data()[i]=(char)(i*7); pm->d.resize(n2); for (size_t i=old; i<n2; ++i) pm->d[i]=(char)(i*7); break;}
      case 10: {hist+=" swap"; pb->swap(*pb2); std::swap(*pm,*pm2); compare(*pb2,*pm2,hist+" [other buffer]"); break;}
      case 11: {
        hist+=" switch"; std::swap(pb,pb2); std::swap(pm,pm2); break;}
      }
      compare(*pb,*pm,hist);
      compare(*pb2,*pm2,hist+" [other buffer]");
    }
    h::eval(hist);
  }
}

// everything written comes back in order, whatever the split into reads
static void fifo(int n)
{
  h::section("fifo");
  for (int t=0; t<n; ++t) {
    pack_t b; string all;
    int k=h::rnd(8);
    for (int i=0; i<k; ++i) {string s=h::rstr(h::rnd(10)==0? 5000: 30); b.packraw(s.data(),s.size()); all+=s;}
    string got;
    while (got.size()<all.size()) {
      size_t q=h::rnd(all.size()-got.size())+1; std::vector<char> v(q);
      b.unpackraw(&v[0],q); got.append(&v[0],q);
    }
    CHECK(got==all,"fifo-order","bytes "+h::hex(all.data(),all.size())+" came back as "+h::hex(got.data(),got.size()));
    CHECK(!b,"fifo-end","data left");
    char c='~'; bool thrown=false;
    try {b.unpackraw(&c,1);} catch (const std::exception&) {thrown=true;}
    CHECK(thrown && c=='~',"truncation-undetected","one byte past "+h::str(all.size()));
    h::eval(all);
  }
}

// file streams
static void files(int n)
{
  h::section("file streams");
  for (int t=0; t<n; ++t) {
    std::vector<string> blocks; string hist="file:"; size_t total=0;
    int k=h::rnd(6);
    {
      pack_t w("c02.dat","wb");
      for (int i=0; i<k; ++i) {
        if (h::rnd(3)==0) {int x=(int)h::rnd(); w<<x; blocks.push_back(string((char*)&x,sizeof x));}
        else {string s=h::rstr(40); w.packraw(s.data(),s.size()); blocks.push_back(s);}
        hist+=" "+h::str(blocks.back().size()); total+=blocks.back().size();
      }
    }
    for (int pass=0; pass<1; ++pass) {
      pack_t r("c02.dat","rb");
      for (int rep=0; rep<2; ++rep) {
        for (size_t i=0; i<blocks.size(); ++i) {
          std::vector<char> v(blocks[i].size()+1);
          try {
            r.unpackraw(&v[0],blocks[i].size());
            CHECK(string(&v[0],blocks[i].size())==blocks[i],"file-order",hist+" block "+h::str(i)+" pass "+h::str(rep));
          } catch (const std::exception& e) {h::fail("file-read",hist+" "+e.what());}
        }
        char c; bool thrown=false;
        try {r.unpackraw(&c,1);} catch (const std::exception&) {thrown=true;}
        CHECK(thrown,"truncation-undetected",hist+" (file)");
        thrown=false; int x;
        try {r>>x;} catch (const std::exception&) {thrown=true;}
        CHECK(thrown,"truncation-undetected",hist+" (file, >>)");
        r.reseto();
      }
    }
    h::eval(hist);
  }
  bool thrown=false;
  try {pack_t r("no/such/file","rb");} catch (const std::exception&) {thrown=true;}
  CHECK(thrown,"open-error","missing file accepted");
  {
    // writes that cannot be stored are reported
    pack_t w("/dev/full","wb"); thrown=false;
    std::vector<char> big(1<<20);
    try {for (int i=0; i<4; ++i) w.packraw(&big[0],big.size());} catch (const std::exception&) {thrown=true;}
    CHECK(thrown,"write-error-undetected","packraw to a full device");
    pack_t w2("/dev/full","wb"); thrown=false;
    try {for (int i=0; i<2000000; ++i) w2<<i;} catch (const std::exception&) {thrown=true;}
    CHECK(thrown,"write-error-undetected","<< to a full device");
  }
  unlink("c02.dat");
}

int main()
{
  h::Main m;
  histories(h::scale(6000));
  fifo(h::scale(400));
  files(h::scale(60));
}
