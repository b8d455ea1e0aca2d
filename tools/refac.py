#!/usr/bin/env python3
"""refac.py [batch...]: behaviour-preserving rewrites, applied to scratch clones; every check has to stay quiet on each of them
   (development aid: no check reads this file).   refac.py --list"""
import sys, os, subprocess, re, json
R = {}
def r(batch, f, old, new): R.setdefault(batch, []).append((f, old, new))

# ---------------------------------------------------------------- batch a
r('a', 'pack_base.h', '''          realloc(m_size+x.size);
          if (!m_data)
            throw std::bad_alloc();
          memcpy(m_data+m_size,x.val,x.size);
        }
      else
        if (fwrite(x.val,x.size,1,f) != 1)
          throw pack_error("file write fail");
      m_size+=x.size;
    }''', '''          growBy(x.size);
          memcpy(m_data+m_size,x.val,x.size);
        }
      else if (fwrite(x.val,x.size,1,f) != 1)
        throw pack_error("file write fail");
      m_size=m_size+x.size;
    }
    /// makes room for \\a n more bytes
    void growBy(size_t n)
    {
      realloc(n+m_size);
      if (m_data==NULL)
        throw std::bad_alloc();
    }
    bool available(size_t n) const {return m_pos<=m_size && n<=m_size-m_pos;}''')
r('a', 'pack_base.h', '''      if (mode==buf)
        if (m_pos>m_size || x.size>m_size-m_pos)
          throw pack_error("unexpected end of data");
        else
          memcpy(x.val,m_data+m_pos,x.size);
      else
        if (fread(x.val,x.size,1,f) != 1)
          throw pack_error("unexpected end of file");
      m_pos+=x.size;''', '''      const size_t n=x.size;
      if (mode!=buf)
        {
          if (fread(x.val,n,1,f) != 1)
            throw pack_error("unexpected end of file");
        }
      else
        {
          if (!available(n))
            throw pack_error("unexpected end of data");
          memcpy(x.val,&m_data[m_pos],n);
        }
      m_pos+=n;''')
r('a', 'pack_base.h', '''      if (m_size==x.m_size)
        {
          int r=memcmp(m_data,x.m_data,m_size);
          return r<0? -1: r>0;
        }
      else
        return m_size<x.m_size? -1: 1;''', '''      if (m_size<x.m_size) return -1;
      if (x.m_size<m_size) return 1;
      const int r=memcmp(m_data,x.m_data,m_size);
      return (r>0)-(r<0);''')
r('a', 'pack_base.h', '''    bool operator>(const pack_t& x) const {return cmp(x)==1;}
    bool operator==(const pack_t& x) const {return cmp(x)==0;}
    bool operator!=(const pack_t& x) const {return cmp(x)!=0;}''', '''    bool operator>(const pack_t& x) const {return x.cmp(*this)==-1;}
    bool operator==(const pack_t& x) const {return !(*this!=x);}
    bool operator!=(const pack_t& x) const {return cmp(x)!=0;}''')
r('a', 'pack_base.h', '''    va_start(ap,ncopies);
    for (int i=1; i<dims; i++) ncopies*=va_arg(ap,int); //assume that 2 and higher D arrays dimensions are int
    va_end(ap);
    for (size_t i=0; i<ncopies; i++) pack(targ,desc,(&arg)[i]);''', '''    va_start(ap,ncopies);
    while (--dims>0) ncopies*=va_arg(ap,int); //assume that 2 and higher D arrays dimensions are int
    va_end(ap);
    T* p=&arg;
    for (T* const end=p+ncopies; p!=end; ++p) pack(targ,desc,*p);''')
r('a', 'pack_base.h', '''    for (int i=1; i<dims; i++) ncopies*=va_arg(ap,int);
    va_end(ap);
    for (size_t i=0; i<ncopies; i++) unpack(targ,desc,(&arg)[i]);''', '''    int i=1;
    while (i<dims)
      {
        ncopies*=va_arg(ap,int);
        ++i;
      }
    va_end(ap);
    size_t j=0;
    while (j<ncopies) 
      {
        T& element=*(&arg+j);
        unpack(targ,desc,element);
        j++;
      }''')
r('a', 'pack_base.h', '''      (*this)<<o.size();
      for (typename T::const_iterator i=o.begin(); i!=o.end(); ++i)
        (*this)<<*i;
      return *this;''', '''      (*this)<<o.size();
      typename T::const_iterator i=o.begin();
      const typename T::const_iterator end=o.end();
      while (i!=end)
        {
          (*this)<<*i;
          ++i;
        }
      return *this;''')
r('a', 'pack_base.h', '''      typename T::value_type v;
      for (size_t i=0; i<s; ++i)
        {
          (*this)>>v;
          o.push_back(v);
        }
      return *this;''', '''      typename T::value_type v;
      while (s>0)
        {
          (*this)>>v;
          o.push_back(v);
          --s;
        }
      return *this;''')
r('a', 'pack_stl.h', '''    b << uint64(a.size());
    for (typename T::const_iterator i=a.begin(); i!=a.end(); ++i)
      b << *i;''', '''    const uint64 n=a.size();
    b << n;
    typename T::const_iterator i=a.begin(), end=a.end();
    while (i!=end)
      b << *i++;''')
r('a', 'pack_stl.h', '''    uint64 sz=0, i=0;
    b >> sz;
    resize(a,0);
    for (; i<sz; ++i)
      {
        typename T::value_type x;
        b >> x;
        classdesc::push_back(a, x);
      }''', '''    uint64 sz=0;
    resize(a,0);
    b >> sz;
    for (uint64 remaining=sz; remaining; --remaining)
      {
        typename T::value_type x;
        b >> x;
        classdesc::push_back(a, x);
      }''')
r('a', 'pack_stl.h', '''    for (typename T::size_type i=0; i<sz; ++i)
      {
        typename classdesc::Value_Type<T>::value_type e;
        b >> e;
        a.insert(e);
      }
  }''', '''    typename T::size_type i=0;
    while (i!=sz)
      {
        typename classdesc::Value_Type<T>::value_type e;
        b >> e;
        a.insert(e);
        i++;
      }
  }''')
r('a', 'pack_stl.h', '''      targ<<classdesc::uint64(arg.size());
      targ.packraw((const char*)arg.data(), sizeof(cT)*arg.size());''', '''      const classdesc::uint64 n=arg.size();
      targ<<n;
      targ.packraw(reinterpret_cast<const char*>(arg.data()), n*sizeof(cT));''')
r('a', 'pack_stl.h', '''      if (!b.empty())
        x=string(b.data(), b.size()-1);''', '''      if (b.size()>0)
        x.assign(b.data(), b.size()-1);''')
r('a', 'pack_graph.h', '''    int valid=0;
    if (arg==NULL) 
      pack(targ,desc,valid);
    else
      {
        valid=1;
        pack(targ,desc,valid);
        pack(targ,desc,*arg);
      }''', '''    int valid=arg!=NULL;
    pack(targ,desc,valid);
    if (valid)
      pack(targ,desc,*arg);''')
r('a', 'pack_graph.h', '''    if (valid) 
      {
        //      arg=new T;
        //      targ->alloced.push_back(arg);
        targ.alloced.push_back(new classdesc::PtrStore<T>);
        arg=static_cast<T*>(targ.alloced.back().data());
        unpack(targ,desc,*arg);
      }
    else
      arg=NULL;''', '''    if (valid==0)
      {
        arg=NULL;
        return;
      }
    targ.alloced.push_back(new classdesc::PtrStore<T>);
    arg=static_cast<T*>(targ.alloced.back().data());
    unpack(targ,desc,*arg);''')
r('a', 'pack_graph.h', '''    else if (graph_map.count(arg)==0)
      {  
        int ID=graph_map.size()+1;
        graph_map[arg]=ID;
        pack(buf,string(),ID);
        pack(buf,string(),*arg);
      }
    else
      pack(buf,string(),graph_map[arg]);''', '''    else
      {
        typename std::map<T,int>::iterator known=graph_map.find(arg);
        if (known!=graph_map.end())
          pack(buf,string(),known->second);
        else
          {  
            int ID=graph_map.size()+1;
            graph_map[arg]=ID;
            pack(buf,string(),ID);
            pack(buf,string(),*arg);
          }
      }''')
r('a', 'pack_graph.h', '''            T& aa=*restart.back(); //we need to pop_back() before packing
            restart.pop_back();    //in case further restarts are needed
            unpack_graph(buf,aa);''', '''            T* next=restart.back(); //we need to pop_back() before packing
            restart.pop_back();    //in case further restarts are needed
            unpack_graph(buf,*next);''')
r('a', 'ref.h', 'void refdec() {if (item){item->count--; if (item->count==0) delete item;}}', 'void refdec() {if (item && --item->count==0) delete item;}')
r('a', 'ref.h', '''      if (x.item)
        {item=x.item; item->count++;}
      else
        item=NULL;''', '''      item=x.item;
      if (item) ++item->count;''')
r('a', 'ref.h', 'void swap(ref& x) {Payload*tmp=x.item; x.item=item; item=tmp;}', 'void swap(ref& x) {std::swap(item,x.item);}')
r('a', 'multiArray.h', 'const MultiArray<T,Rank-1> operator[](size_t i) const {\n      return MultiArray<T,Rank-1>(m_data+i*m_stride, dim);', 'const MultiArray<T,Rank-1> operator[](size_t i) const {\n      T* first=m_data+m_stride*i;\n      return MultiArray<T,Rank-1>(first, dim);')
r('a', 'multiArray.h', 'for (int i=0; i<Rank-1; ++i) m_stride*=dim[i];', 'for (int i=Rank-2; i>=0; --i) m_stride*=dim[i];')
r('a', 'multiArray.h', 'iterator operator++(int)\n      {auto tmp=*this; advance(array,stride); return tmp;}', 'iterator operator++(int)\n      {iterator tmp(*this); ++*this; return tmp;}')
r('a', 'object.h', '''    if (o->type()>=int(factory().size()))
      factory().resize(o->type()+1);
    factory()[o->type()]=o;;''', '''    const int t=o->type();
    ObjectFactory& f=factory();
    if (t>=int(f.size()))
      f.resize(t+1);
    f[t]=o;''')
r('a', 'object.h', '''  if (a)
    {
      b<<(a->type()+1);
      a->pack(b);
    }
  else
    b<<classdesc::object::TypeID(0);''', '''  classdesc::object::TypeID t=0;
  if (a) t=a->type()+1;
  b<<t;
  if (a) a->pack(b);''')
r('a', 'factory.h', '''      if (i==fmap.end())
        throw InvalidType(t);
      else
        return i->second->create();''', '''      if (i!=fmap.end())
        return i->second->create();
      throw InvalidType(t);''')

# ---------------------------------------------------------------- batch b: XML, enums
r('b', 'xml_pack_base.h', '''      const char* x=xx.c_str();
      int l;
      if (*x=='\\0') return 0;
      for (l=1; *x!='\\0'; x++) if (*x=='.') l++;
      return l;''', '''      if (xx.c_str()[0]=='\\0') return 0;
      int l=1;
      const char* x=xx.c_str();
      while (*x!='\\0') 
        {
          if (*x=='.') ++l;
          ++x;
        }
      return l;''')
r('b', 'xml_pack_base.h', '''      bool ret = taglevel < l; //return true if tag created
      if (ret)
        {
          pretty(d);
          *o<<"<"<<tail(d);
          if (l==1 && !schema.empty())
            *o<<" xmlns=\\""<<schema<<"\\"";
          *o<<">";
          endpretty();
          taglevel=l;
        }
      return ret;''', '''      if (taglevel >= l) return false;
      pretty(d);
      *o<<"<"<<tail(d);
      if (!schema.empty() && l==1)
        *o<<" xmlns=\\""<<schema<<"\\"";
      *o<<">";
      endpretty();
      taglevel=l;
      return true; //tag created''')
r('b', 'xml_pack_base.h', '''      if (std::isnan(x))
        return o<<"NaN";
      else if (std::isinf(x))
        if (x<0)
          return o<<"-INF";
        else
          return o<<"INF";
      else
        return o<<x;''', '''      if (std::isinf(x))
        return o<<(x<0? "-INF": "INF");
      if (std::isnan(x))
        return o<<"NaN";
      return o<<x;''')
r('b', 'xml_pack_base.h', '''      pretty(d);
      *o << "<"<<tag<<">";
      put(*o,x) << "</"<<tag<<">";
      endpretty();''', '''      pretty(d);
      std::ostream& os=*o;
      os << "<"<<tag<<">";
      put(os,x);
      os << "</"<<tag<<">";
      endpretty();''')
r('b', 'xml_pack_base.h', '''    for (std::string::size_type i=0; i<a.length() && !x.abort; i++) tmp+=classdesc::xml_quote(a[i]);''',
  '''    for (std::string::const_iterator i=a.begin(); i!=a.end() && !x.abort; ++i) tmp+=classdesc::xml_quote(*i);''')
r('b', 'xml_pack_base.h', '''    for (typename T::const_iterator i=arg.begin(); i!=arg.end(); ++i)
      xml_pack(x,d+"."+e,*i);''', '''    const string elementName=d+"."+e;
    for (typename T::const_iterator i=arg.begin(); i!=arg.end(); ++i)
      xml_pack(x,elementName,*i);''')
r('b', 'xml_pack_base.h', '''    for (size_t i=0; i<ncopies; i++) xml_pack(x,d+"."+e,(&a)[i]);''', '''    T* element=&a;
    for (size_t i=0; i<ncopies; i++, element++) xml_pack(x,d+"."+e,*element);''')
r('b', 'xml_unpack_base.h', '''    for (size_t i=0; i<ncopies; i++) 
      xml_unpack(x,classdesc::idx(d+"."+e,i),(&a)[i]);''', '''    const string elementName=d+"."+e;
    size_t i=0;
    while (i<ncopies)
      {
        xml_unpack(x,classdesc::idx(elementName,i),(&a)[i]);
        ++i;
      }''')
r('b', 'xml_unpack_base.h', '''    size_t i=0;
    for (typename T::iterator j=arg.begin(); i<cnt && j!=arg.end(); ++i, ++j) 
      xml_unpack(x,idx(d+"."+e,i),*j);''', '''    typename T::iterator j=arg.begin();
    for (size_t i=0; i<cnt && j!=arg.end(); ++i) 
      {
        xml_unpack(x,idx(d+"."+e,i),*j);
        ++j;
      }''')
r('b', 'xml_unpack_base.h', '''    for (size_t i=0; i<x.count(prefix); ++i) 
      {''', '''    const size_t cnt=x.count(prefix);
    for (size_t i=0; i<cnt; ++i) 
      {''')
r('b', 'xml_unpack_base.h', '''      while (notEof && std::isspace(c)) notEof=get(c);
      if (notEof) unget(c);''', '''      for (; notEof; notEof=get(c))
        if (!std::isspace(c))
          {
            unget(c);
            return;
          }''')
r('b', 'xml_unpack_base.h', '''    for (c=getNoEOF(); c!=';'; c=getNoEOF())
      name+=c;''', '''    while ((c=getNoEOF())!=';')
      name+=c;''')
r('b', 'xml_unpack_base.h', '''    if (tok.empty())
      {
        nexttok='\\0';
        kind=std::isspace(c)? space: markup;
        switch (c)
          {
          case '/': inTag=true; return "</";
          case '\\\\': inTag=false; return "/>";
          case '<': inTag=true; return "<";
          case '>': inTag=false; return ">";
          default: return std::string(1,c);
          }
      }
    else
      {
        nexttok=c;
        return tok;
      }''', '''    if (!tok.empty())
      {
        nexttok=c;
        return tok;
      }
    nexttok='\\0';
    kind=markup;
    if (c=='/') {inTag=true; return "</";}
    if (c=='\\\\') {inTag=false; return "/>";}
    if (c=='<') {inTag=true; return "<";}
    if (c=='>') {inTag=false; return ">";}
    if (std::isspace(c)) kind=space;
    return std::string(1,c);''')
r('b', 'xml_unpack_base.h', '''      for (end=0; end<=key.length(); end++)
        if (key[end]=='#') 
          hash_read=true;
        else if (key[end]=='.')
          {
            if (hash_read)
              hash_read=false;
            else // no hash read, so insert "#0"
              {
                r+=key.substr(start,end-start)+"#0";
                start=end;
              }
          }''', '''      for (end=0; end<=key.length(); end++)
        {
          const char c=key[end];
          if (c=='.')
            {
              if (!hash_read) // insert "#0"
                {
                  r+=key.substr(start,end-start)+"#0";
                  start=end;
                }
              hash_read=false;
            }
          else if (c=='#') 
            hash_read=true;
        }''')
r('b', 'xml_unpack_base.h', '''    if (tok.length()>scope.length() ||
        scope.compare(scope.length()-tok.length(),tok.length(),tok)!=0 ||
        (tok.length()<scope.length() && scope[scope.length()-tok.length()-1]!='.'))
      throw xml_pack_error("unexpected end tag");''', '''    bool matches=tok.length()<=scope.length();
    if (matches)
      {
        const std::string::size_type start=scope.length()-tok.length();
        matches=scope.substr(start)==tok && (start==0 || scope[start-1]=='.');
      }
    if (!matches)
      throw xml_pack_error("unexpected end tag");''')
r('b', 'xml_unpack_base.h', '''      std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
      if (it != contentMap.end())
        var=it->second; 
      else if (present(key))
        var.clear();  // element is there, but has no content''', '''      ContentMap::const_iterator it=contentMap.find(key);
      if (it == contentMap.end())
        {
          if (present(key)) var.clear();  // element is there, but has no content
          return;
        }
      var=it->second;''')

# ---------------------------------------------------------------- batch c: the processor, XDR, functional
r('c', 'xdr_pack.cc', '''        size_t pos=m_pos<m_size? m_pos: m_size;
        MemXDR s(m_data+pos,m_size-pos,XDR_DECODE);''', '''        const size_t pos=std::min(m_pos,m_size), remaining=m_size-pos;
        MemXDR s(m_data+pos,remaining,XDR_DECODE);''')
r('c', 'xdr_pack.cc', '''    if (!ok) throw pack_error("Error encoding XDR stream");
    m_size+=written;''', '''    if (ok)
      m_size+=written;
    else
      throw pack_error("Error encoding XDR stream");''')
r('c', 'xdr_pack.cc', '''        if (!input) throw pack_error("not open for writing");
        u_int start=xdr_getpos(input);
        ok=x(*input);
        written=u_int(xdr_getpos(input)-start);''', '''        if (input==NULL) throw pack_error("not open for writing");
        XDR& s=*input;
        const u_int start=xdr_getpos(&s);
        ok=x(s);
        const u_int end=xdr_getpos(&s);
        written=u_int(end-start);''')
r('c', 'xdr_pack.cc', '''      size_t maxSize() const {return sz+3;}''', '''      size_t maxSize() const {const size_t padding=3; return padding+sz;}''')
r('c', 'classdesc.h', '''      for (const EnumKey *i=data; i<data+size; i++)
        {
          s2v[i->name]=i->value;
          v2s[i->value]=i->name;
        }''', '''      for (int i=0; i<size; ++i)
        {
          const EnumKey& key=data[i];
          s2v[key.name]=key.value;
          v2s[key.value]=key.name;
        }''')
r('c', 'classdesc.h', '''      SVMap::const_iterator i=s2v.find(key);
      if (i!=s2v.end()) return T(i->second);
      else return T(0);''', '''      SVMap::const_iterator i=s2v.find(key);
      return i==s2v.end()? T(0): T(i->second);''')
r('c', 'classdesc.h', '''      VSMap::const_iterator i=v2s.find(val);
      if (i!=v2s.end()) return i->second;
      else return "";''', '''      VSMap::const_iterator i=v2s.find(val);
      if (i==v2s.end()) return std::string();
      return i->second;''')
r('c', 'classdesc.h', '''    std::string r(x);
      std::string::size_type i=r.rfind('.');
    return r.substr( i==std::string::npos? 0: i+1);'''.replace('      std', '    std'), '''    const std::string::size_type i=x.rfind('.');
    if (i==std::string::npos) return x;
    return x.substr(i+1);''')
r('c', 'classdesc.h', '''    std::string r(x);
    std::string::size_type i=r.rfind('.');
    return r.substr( 0, i==std::string::npos? std::string::npos: i);''', '''    return x.substr(0, x.rfind('.'));''')
r('c', 'classdesc.h', '''    {return "std::map<"+typeName<K>()+","+typeName<V>()+">";}''', '''    {
      std::string r="std::map<";
      r+=typeName<K>();
      r+=",";
      r+=typeName<V>();
      return r+">";
    }''')
r('c', 'classdesc.h', '''    {return "std::pair<"+typeName<K>()+","+typeName<V>()+">";}''', '''    {
      const std::string first=typeName<K>(), second=typeName<V>();
      return "std::pair<"+first+","+second+">";
    }''')
r('c', 'classdesc.h', '''template <class T> struct tn<T*>
  {
    static std::string name()
    {return typeName<T>()+"*";}''', '''template <class T> struct tn<T*>
  {
    static std::string name()
    {std::string r(typeName<T>()); r+='*'; return r;}''')
r('c', 'random_init_base.h', '''    a.resize(10*r.rand());
    for (size_t i=0; i<a.size(); ++i)
      random_init(r,d,a[i]);''', '''    const size_t n=10*r.rand();
    a.resize(n);
    for (size_t i=0; i<n; ++i)
      random_init(r,d,a[i]);''')
r('c', 'random_init_base.h', '''    int numElem=int(10*r.rand());
    for (int i=0; i<numElem; ++i)
      {''', '''    for (int remaining=int(10*r.rand()); remaining>0; --remaining)
      {''')
r('c', 'random_init_base.h', '''    size_t cnt=ncopies;
    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,int);
    va_end(ap);
    for (size_t i=0; i<cnt; ++i)
      random_init(r,d,(&a)[i]);''', '''    size_t cnt=ncopies;
    for (int i=1; i<ndims; ++i) cnt=cnt*va_arg(ap,int);
    va_end(ap);
    T* e=&a;
    while (cnt-->0)
      random_init(r,d,*e++);''')
r('c', 'polyAccessPack.h', '''    bool valid=a.get();
    ::pack(x,d,valid);
    if (valid)
      {
        typename T::element_type::Type t=a->type();
        ::pack(x,d,t);
        a->pack(x,d);
      }''', '''    bool valid=a.get()!=NULL;
    ::pack(x,d,valid);
    if (!valid) return;
    typename T::element_type::Type t(a->type());
    ::pack(x,d,t);
    a->pack(x,d);''')
r('c', 'polyAccessPack.h', '''    bool valid;
    unpack(x,d,valid);
    if (valid)
      {
        a.reset(new typename T::element_type);
        unpack(x,d,*a);
      }
    else
      a.reset();''', '''    bool valid;
    unpack(x,d,valid);
    if (!valid)
      {
        a.reset();
        return;
      }
    typename T::element_type* item=new typename T::element_type;
    a.reset(item);
    unpack(x,d,*item);''')
r('c', 'polyAccessXMLPack.h', '''    if (x.exists(d))
      {
        a.reset(new typename T::element_type);
        ::xml_unpack(x,d,*a);
      }
    else
      a.reset();
  }

  // const''', '''    const bool there=x.exists(d);
    if (!there)
      a.reset();
    else
      {
        a.reset(new typename T::element_type);
        ::xml_unpack(x,d,*a);
      }
  }

  // const''')
r('c', 'poly.h', '''      if (x) item=dynamic_cast<T*>(x->clone()); else item=NULL;''', '''      item=x? dynamic_cast<T*>(x->clone()): NULL;''')
r('c', 'poly.h', '''      if (i>=data.size() || !data[i]) throw exception("type not registered");
      return *data[i];''', '''      T* const r=i<data.size()? data[i]: NULL;
      if (!r) throw exception("type not registered");
      return *r;''')
r('c', 'poly.h', '''          if (!a || type!=a->type())
            a=a.TypeTable[type];
          a->unpack(t);''', '''          const bool same=a && type==a->type();
          if (!same)
            a=a.TypeTable[type];
          a->unpack(t);''')
r('c', 'function.h', '''      R operator()(Args... args) const {return (obj->*method)(args...);}
      void rebind''', '''      R operator()(Args... args) const {C& o=*obj; return (o.*method)(args...);}
      void rebind''')
r('c', 'classdesc.cc', '''  for (start=0; start<s.size(); start=end)
    {
      // advance to next alpha
      for (; start<s.size() && !isIdentifierStart(s[start]); ++start);
      //find end of token
      for (end=start+1; end<s.size() && isIdentifierChar(s[end]); ++end);
      if (start<s.size() && start<end) 
          r.insert(s.substr(start,end-start));
    }''', '''  start=0;
  while (start<s.size())
    {
      // advance to next alpha
      while (start<s.size() && !isIdentifierStart(s[start])) ++start;
      if (start>=s.size()) break;
      //find end of token
      end=start+1;
      while (end<s.size() && isIdentifierChar(s[end])) ++end;
      r.insert(s.substr(start,end-start));
      start=end;
    }''')
r('c', 'classdesc.cc', '''          for (set<string>::iterator i=base_toks.begin(); 
               i!=base_toks.end(); ++i)
            if (arg_toks.count(*i))
              args_in_base.insert(*i);''', '''          for (set<string>::iterator i=arg_toks.begin(); 
               i!=arg_toks.end(); ++i)
            if (base_toks.find(*i)!=base_toks.end())
              args_in_base.insert(*i);''')
r('c', 'classdesc.cc', '''          for (input.nexttok(); input.token!="," && input.token!="}";
                 input.nexttok()); //skip value''', '''          do input.nexttok(); while (input.token!="," && input.token!="}"); //skip value''')

# ---------------------------------------------------------------- batch d
r('d', 'xsd_generate_base.h', '''      const std::set<string>& deps=dependencies[type];
      for (std::set<string>::const_iterator d=deps.begin(); d!=deps.end(); ++d)
        outputType(o, *d);''', '''      std::map<string, std::set<string> >::const_iterator deps=dependencies.find(type);
      if (deps!=dependencies.end())
        for (std::set<string>::const_iterator d=deps->second.begin(); d!=deps->second.end(); ++d)
          outputType(o, *d);''')
r('d', 'xsd_generate_base.h', '''      if (!name.empty() && 
          !typeBeingAddedTo.empty() && !typeBeingAddedTo.back().complete)
        {
          if (!typeBeingAddedTo.back().sequenceAdded)
            xsdDefs[typeBeingAddedTo.back().name]+="    <xs:sequence>\\n";
          typeBeingAddedTo.back().sequenceAdded=true;
          xsdDefs[typeBeingAddedTo.back().name]+=
            "      <xs:element name=\\""+name+"\\" type=\\""
            +memberType+(optional?"\\" minOccurs=\\"0":"")+"\\"/>\\n";
          addDependency(typeBeingAddedTo.back().name, memberType);
        }''', '''      if (name.empty() || typeBeingAddedTo.empty()) return;
      TypeBeingAddedTo& current=typeBeingAddedTo.back();
      if (current.complete) return;
      string& def=xsdDefs[current.name];
      if (!current.sequenceAdded)
        {
          def+="    <xs:sequence>\\n";
          current.sequenceAdded=true;
        }
      def+="      <xs:element name=\\""+name+"\\" type=\\""+memberType;
      if (optional) def+="\\" minOccurs=\\"0";
      def+="\\"/>\\n";
      addDependency(current.name, memberType);''')
r('d', 'xsd_generate_base.h', '''      if (dependency.substr(0,4)=="tns:")
        dependencies[type].insert(dependency.substr(4));''', '''      const string ns("tns:");
      if (dependency.compare(0,ns.length(),ns)==0)
        dependencies[type].insert(dependency.substr(ns.length()));''')
r('d', 'xsd_generate_base.h', '''      for (size_t i=0; i<typeBeingAddedTo.size(); ++i)
        if (typeBeingAddedTo[i].name==type) return true;
      return false;''', '''      bool found=false;
      for (std::vector<TypeBeingAddedTo>::const_iterator i=typeBeingAddedTo.begin(); !found && i!=typeBeingAddedTo.end(); ++i)
        found=i->name==type;
      return found;''')
r('d', 'xsd_generate_base.h', '''      if (!typeBeingAddedTo.empty())
        return typeBeingAddedTo.back().description;
      else
        return "";''', '''      return typeBeingAddedTo.empty()? string(): typeBeingAddedTo.back().description;''')
r('d', 'xsd_generate_base.h', '''      if (xsdDefs.count(type)==0)
        xsdDefs[type]=def;''', '''      xsdDefs.insert(std::make_pair(type,def));''')
r('d', 'xsd_generate_base.h', '''    for (string::size_type i=0; i<x.length(); ++i)
      if (!isalnum(x[i]))
        x[i]='_';
    return x;''', '''    for (string::iterator i=x.begin(); i!=x.end(); ++i)
      *i=isalnum(*i)? *i: '_';
    return x;''')
r('d', 'dump_base.h', '''    const char* tail=d.c_str();
    int ndots=0;
    for (const char* c=tail; *c!='\\0'; c++)
      if (*c=='.') 
        {
          ndots++;
          o<<' ';
          tail=c+1;
        }
    o<<tail<<":";
    return ndots;''', '''    const char* last=d.c_str();
    int dots=0;
    const char* c=last;
    while (*c)
      {
        if (*c++!='.') continue;
        ++dots;
        o<<" ";
        last=c;
      }
    o<<last<<':';
    return dots;''')
r('d', 'dump_base.h', '''         std::ostringstream idx;
         idx<<i;
         dump(o,d+"["+idx.str().c_str()+"]",*begin);''', '''         std::ostringstream idx;
         idx<<d<<'['<<i<<']';
         dump(o,idx.str(),*begin);''')
r('d', 'dump_base.h', '''    if (a)
      dump(o,d,*a);
    else
      dump(o,d,string("null"));''', '''    if (!a.get())
      {
        dump(o,d,string("null"));
        return;
      }
    dump(o,d,*a);''')
r('d', 'dump_base.h', '''    for (int i=1; i<dims; i++) ncopies*=va_arg(ap,int); //assume that 2 and higher D arrays dimensions are int
    va_end(ap);
    if (ncopies) dump_container(o,d,&arg, &arg+ncopies);''', '''    while (--dims>0) ncopies=ncopies*va_arg(ap,int);
    va_end(ap);
    if (!ncopies) return;
    T* const first=&arg;
    dump_container(o,d,first,first+ncopies);''')
r('d', 'classdescMP.h', '''      offsets=new int[nprocs()+1];
      offsctr=x.offsctr;
      for (unsigned i=0; i<offsctr; i++) offsets[i]=x.offsets[i];''', '''      const unsigned np=nprocs();
      offsets=new int[np+1];
      memcpy(offsets,x.offsets,(offsctr=x.offsctr)*sizeof(int));''')
r('d', 'classdescMP.h', '''    m_size=sz;
    realloc(m_size);
    proc=status.MPI_SOURCE;
    tag=status.MPI_TAG;
    MPI_Recv(data(),size(),MPI_CHAR,proc,tag,Communicator,&status);''', '''    realloc(m_size=sz);
    tag=status.MPI_TAG;
    proc=status.MPI_SOURCE;
    MPI_Recv(data(),sz,MPI_CHAR,proc,tag,Communicator,&status);''')
r('d', 'classdescMP.h', '''            for (offsets[0]=0, i=0; i<nprocs(); i++)
              offsets[i+1]=offsets[i]+sizes[i];
            rootsz=offsets[nprocs()];''', '''            const unsigned np=nprocs();
            for (i=0; i<np; i++)
              {
                offsets[i]=rootsz;
                rootsz+=sizes[i];
              }
            offsets[np]=rootsz;''')
r('d', 'classdescMP.h', '''      for (int i=0; i<np; i++) sizes[i]=offsets[i+1]-offsets[i];''', '''      int prev=offsets[0];
      for (int i=1; i<=np; i++)
        {
          sizes[i-1]=offsets[i]-prev;
          prev=offsets[i];
        }''')
r('d', 'classdescMP.h', '''    int waiting;
    MPI_Iprobe(source,tag,Communicator,&waiting,&status);
    return waiting;''', '''    int waiting=0;
    MPI_Iprobe(source,tag,Communicator,&waiting,&status);
    return waiting!=0;''')

def go(b, keep=False):
    d = '/tmp/x/rf_' + b
    subprocess.run('rm -rf %s && git clone -q %s %s' % (d, os.environ.get('BASE', '/repo'), d), shell=True, check=True)
    if os.environ.get('BASE'): subprocess.run('git -C $BASE diff | git -C %s apply' % d, shell=True)
    for f, old, new in R[b]:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1: print('NOT FOUND in', f, ':', old[:100]); continue
        if s.count(old) > 1: print('%d times in' % s.count(old), f, ':', old[:60])
        open(p, 'w').write(s.replace(old, new, 1))
    return d
if __name__ == '__main__':
    for b in sys.argv[1:] or sorted(R): print(go(b))
