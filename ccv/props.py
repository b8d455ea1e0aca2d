"""what decides each property: proof tasks (contracts/*.py) and bounded harnesses (harness/*)"""
TRUSTED = ['clang 18 translation of the C++ source to LLVM IR at -O0 plus mem2reg (the verified text is this IR of /repo\'s current headers, regenerated on every run)',
           'ccv (the verification-condition generator in /verif/ccv): symbolic semantics of LLVM IR, Houdini loop cutting',
           'z3 4.x and cvc5 1.1.2 (cross-checked against each other in the thorough tier)']
PROPS = {}


def prop(id, **kw):
    kw.setdefault('level', 'proof')
    PROPS[id] = kw


prop('C01', title='binary round trip', tasks=[('pack_stl', ['seqs', 'funds', 'others'])], harness=['c01_roundtrip.cc', 'c01_cxx17.cc'])
prop('C02', title='pack_t buffer', tasks=[('pack_core', ['core']), ('pack_file', ['core'])], harness=['c02_buffer.cc', 'c02_move.cc'])
prop('C03', title='comparison', tasks=[('pack_core', ['cmp_tasks', 'deep'])], harness=['c03_cmp.cc'])
prop('C13', title='MultiArray', tasks=[('multiarray', ['core'])], harness=['c13_multiarray11.cc', 'c13_multiarray17.cc'])
prop('C06', title='ref', tasks=[('ref', ['core'])], harness=['c06_ref.cc'])
prop('C12', title='enum symbols', tasks=[('enumkeys', ['core'])], harness=['c12_enum.py'])
prop('C15', title='function application', tasks=[('functional', ['core'])], harness=['c15_functional.py'])
prop('C05', title='graphs and trees', tasks=[('graph', ['graphs']), ('ref', ['alloc'])], harness=['c05_graph.cc'])
prop('C11', title='descriptors', tasks=[('descr', ['corpus'])], harness=['c11_classdesc.py'])
prop('C08', title='XML round trip', tasks=[('xml', ['quote', 'writes']), ('xmlin', ['reads'])], harness=['c08_xml.cc', 'c08_xml17.cc'])
prop('C09', title='XML output', tasks=[('xml', ['quote', 'writes'])], harness=['c09_wellformed.cc'])
prop('C10', title='XML parser', tasks=[('xmlparse', ['parser'])], harness=['c10_parse.cc'])
prop('C04', title='XDR buffers', tasks=[('xdr', ['xdr'])], harness=['c04_xdr.cc'])
prop('C07', title='smart pointers', tasks=[('smart', ['core']), ('smartxml', ['core'])], harness=['c07_smart.cc'])
prop('C17', title='BinStream', tasks=[('binstream', ['core'])], harness=['c17_binstream.cc'])
prop('C14', title='type names', tasks=[('typename', ['core'])], harness=['c14_typename.py'])
prop('C16', title='random initialisation', tasks=[('rinit', ['core'])], harness=['c16_random.cc'])
prop('C18', title='XML schema', tasks=[('xsd', ['methods', 'core', 'modern'])], harness=['c18_xsd.py'])
prop('C19', title='MPI buffers', tasks=[('mpi', ['buf', 'group', 'slave'])], harness=['c19_mpi.cc', 'c19_mpixdr.cc'])
prop('C20', title='dump', tasks=[('dump', ['values', 'seqs'])], harness=['c20_dump.py'])
