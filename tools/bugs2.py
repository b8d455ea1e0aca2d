HM = '#include "classdesc.h"\n#include <string.h>\n#include <iterator>\n#include <vector>\n#include "multiArray.h"\n#include "classdesc_epilogue.h"\nusing namespace classdesc;\n'
B('c13-postdec', 'C13', [('multiArray.h', '{auto tmp=*this; advance(array,-stride); return tmp;}', '{advance(array,-stride); return *this;}')], HM + '''int main() {
  int d[6]={0}; MultiArray<int,2> a(d,2,3);
  MultiArray<int,2>::iterator i=a.begin(), r=i; i+=2; r=i--;
  MultiArray<int,2>::iterator e=a.begin(); e+=2;
  return r==e? 0: 1;
}''', std='c++11', needs='using the value of i--', breaks='post-decrement returns the decremented iterator')
B('c13-stride-rank4', 'C13', [('multiArray.h', '''      dim[d]=d1;
      m_stride*=d1;
''', '''      dim[d]=d1;
      if (d<2 || Rank>5) m_stride*=d1;
''')], HM + '''int main() {
  int d[120]; for (int i=0; i<120; ++i) d[i]=i;
  MultiArray<int,4> a(d,2,3,4,5);
  const MultiArray<int,4>& c=a;
  return c[2][1][1][1]==1+2*(1+3*(1+4*2))? 0: 1;
}''', std='c++11', needs='a MultiArray of rank 4 built in C++11 from its extents', breaks='the outermost subscript addresses the wrong slice')
B('c13-const-end', 'C13', [('multiArray.h', 'const_iterator end() const {auto tmp=begin(); tmp+=dim[Rank-1]; return tmp;}', 'const_iterator end() const {auto tmp=begin(); tmp+=dim[Rank>3? 0: Rank-1]; return tmp;}')], HM + '''int main() {
  int d[120]; for (int i=0; i<120; ++i) d[i]=i;
  MultiArray<int,4> a(d,2,3,4,5); const MultiArray<int,4>& c=a; int n=0;
  for (MultiArray<int,4>::const_iterator i=c.begin(); i!=c.end() && n<100; ++i) ++n;
  return n==5? 0: 1;
}''', std='c++11', needs='const iteration over a MultiArray of rank 4 whose first and last extents differ', breaks='iteration stops after the wrong number of slices')
