H = '#include "pack_base.h"\n#include "pack_stl.h"\n#include "classdesc_epilogue.h"\n#include <list>\nusing namespace classdesc;\nusing std::string;\n'
B('c01-clear-only-if-nonempty', 'C01', [('pack_stl.h', '''    b >> sz;
    a.clear();
    for''', '''    b >> sz;
    if (sz) a.clear();
    for''')], H + '''int main() {
  std::map<int,int> e, t; t[1]=2;
  pack_t b; b<<e; b>>t;
  return t.empty()? 0: 1;
}''', needs='an empty associative container unpacked over a non-empty one', breaks='the target keeps its old elements instead of becoming equal to what was packed')
B('c01-multimap-hint', 'C01', [('pack_stl.h', '''        a.insert(e);
      }
  }

  template <class T>
  typename enable_if<is_associative_container<T>, void>::T
  unpack(classdesc::pack_t& b, const classdesc::string&, const T& a)''', '''        a.insert(a.begin(),e);
      }
  }

  template <class T>
  typename enable_if<is_associative_container<T>, void>::T
  unpack(classdesc::pack_t& b, const classdesc::string&, const T& a)''')], H + '''int main() {
  std::multimap<int,int> x, y; x.insert(std::make_pair(1,10)); x.insert(std::make_pair(1,20));
  pack_t b; b<<x; b>>y;
  return x==y? 0: 1;
}''', needs='a multimap with two entries of equal key and different values', breaks='entries with equal keys come back in reversed order, so the value differs')
B('c01-array-dim', 'C01', [('pack_base.h', '''    for (int i=1; i<dims; i++) ncopies*=va_arg(ap,int);
    va_end(ap);
    for (size_t i=0; i<ncopies; i++) unpack(targ,desc,(&arg)[i]);''', '''    if (dims>1) ncopies*=va_arg(ap,int);
    if (dims>2) ncopies*=va_arg(ap,int)*(dims>3? va_arg(ap,int): 1);
    va_end(ap);
    for (size_t i=0; i<ncopies; i++) unpack(targ,desc,(&arg)[i]);''')], H + '''int main() {
  int x[2][2][2][2][2], y[2][2][2][2][2]; int k=0;
  for (int* p=&x[0][0][0][0][0]; p!=&x[0][0][0][0][0]+32; ++p) *p=++k;
  memset(y,0,sizeof(y));
  pack_t b; pack(b,"",is_array(),x[0][0][0][0][0],5,2,2,2,2,2); unpack(b,"",is_array(),y[0][0][0][0][0],5,2,2,2,2,2);
  return memcmp(x,y,sizeof(x))? 1: 0;
}''', needs='an array member with five dimensions', breaks='only part of the array is unpacked')
B('c02-clear-pos', 'C02', [('pack_base.h', 'void clear() {realloc(0); m_data=0; m_size=m_pos=0;}', 'void clear() {realloc(0); m_data=0; if (m_pos>=m_size) m_pos=0; m_size=0;}')], H + '''int main() {
  pack_t b; b<<1<<2; int x; b>>x; b.clear(); b<<5<<6; b>>x;
  return x==5? 0: 1;
}''', needs='clear() after only part of the buffered data was read', breaks='the next read does not return the first byte written after clear')
B('c02-swap-pos', 'C02', [('pack_base.h', '      std::swap(m_pos,other.m_pos);\n', '      if (mode!=buf || other.mode!=buf || m_size!=other.m_size) std::swap(m_pos,other.m_pos);\n')], H + '''int main() {
  pack_t a, b; int x=0; a<<1<<2; b<<3<<4; a>>x; a.swap(b);
  a>>x; if (x!=3) return 1;
  b>>x; return x==2? 0: 1;
}''', needs='swapping two buffers of equal size with different read positions', breaks='the read positions stay behind')
B('c02-resize-grow', 'C02', [('pack_base.h', '''      realloc(s);
      if (!m_data) throw std::bad_alloc();
      m_size=s;''', '''      if (s<m_size && m_pos<s)
        {m_size=s; return;}
      realloc(s);
      if (!m_data) throw std::bad_alloc();
      if (m_pos>s) m_pos=0;
      m_size=s;''')], H + '''int main() {
  pack_t b; b<<1<<2<<3; int x; b>>x>>x; size_t p=b.pos(); b.resize(4);
  if (b.pos()!=p) return 1;
  try {b>>x; return 2;} catch (const pack_error&) {return 0;}
}''', needs='shrinking the buffer below the read position', breaks='data is read twice where the end of the data must be reported')
B('c03-deepeq-strncmp', 'C03', [('pack_base.h', '''    return (xb<<x).cmp(yb<<y)==0;''', '''    xb<<x; yb<<y;
    return xb.size()==yb.size() && strncmp(xb.data(),yb.data(),xb.size())==0;''')], H + '''int main() {
  return deepEq(256,512) || !deepEq(256,256);
}''', needs='two values whose packed bytes agree up to a zero byte', breaks='deepEq calls different values equal')
B('c03-cmp-pos', 'C03', [('pack_base.h', '''        return m_size<x.m_size? -1: 1;''', '''        return m_size-m_pos<x.m_size-x.m_pos? -1: 1;''')], H + '''int main() {
  pack_t a, b; a<<1<<2<<3; b<<1<<2; int x; a>>x>>x;
  return a>b && b<a? 0: 1;
}''', needs='comparing buffers of different length after reading from the longer one', breaks='the order depends on the read position; a<b and b<a can both hold')
