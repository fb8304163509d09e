PRE = '''
import os, numpy as np
from hyperion.io import DataWriterFactory as WF, SequentialDataReaderFactory as RF, CopyFeats
T = os.environ['SCRATCH']
os.chdir(T)

def make(spec, n):
    with WF.create(spec) as w:
        w.write(['k%d' % i for i in range(n)], [np.full((2, 2), i, 'float32') for i in range(n)])

def keys(spec):
    with RF.create(spec) as r:
        return [str(k) for k in r.read()[0]]
'''
SEEDS = [
 dict(id='p16-last-chunk', property='P16',
  edits=[('hyperion/io/copy_feats.py', """                        if len(key) == 0:
                            break
""", """                        if len(key) < chunk_size:
                            break
""")],
  needs='a chunk size above one that does not divide the number of records',
  breaks='the records of the last, incomplete chunk are not copied',
  demo=PRE + '''
make('ark:a.ark', 5)
CopyFeats('ark:a.ark', 'h5:b.h5', chunk_size=2)
assert keys('h5:b.h5') == ['k%d' % i for i in range(5)], keys('h5:b.h5')
'''),
 dict(id='p16-option-order', property='P16',
  edits=[('hyperion/io/rw_specifiers.py', """                elif option == 'f':
                        flush = True
                elif option in ['b', 't', 'nf', 'p']:
                    pass
""", """                elif option == 'f':
                        flush = True
                elif option == 't' and archive_type == ArchiveType.ARK:
                        binary = False
                elif option == 'p' and archive_type == ArchiveType.ARK:
                        permissive = True
                elif option in ['b', 't', 'nf', 'p']:
                    pass
"""), ('hyperion/io/rw_specifiers.py', """            if archive_type == ArchiveType.ARK:
                for option in options:
                    if option == 't':
                        binary = False
                    elif option == 'p':
                        permissive = True
                
            return cls(spec_type, archive, script,
""", """            return cls(spec_type, archive, script,
""")],
  needs='a write specifier with the text or permissive option before the archive type',
  breaks='the option is ignored: a binary archive is written',
  demo=PRE + '''
make('ark:a.ark', 2)
CopyFeats('ark:a.ark', 't,ark:b.ark')
assert open('b.ark', 'rb').read().startswith(b'k0  ['), open('b.ark', 'rb').read()[:10]
'''),
 dict(id='p16-names-swapped', property='P16',
  edits=[('hyperion/io/rw_specifiers.py', """                    assert len(archives) > cur_archive
                    script = archives[cur_archive]
                    cur_archive += 1
""", """                    assert len(archives) > cur_archive
                    script = archives[-1]
                    cur_archive += 1
""")],
  needs='a write specifier that names the script before the archive',
  breaks='script and archive are written to the same file',
  demo=PRE + '''
make('scp,h5:b.scp,b.h5', 2)
assert [l.split()[0] for l in open('b.scp')] == ['k0', 'k1']
assert keys('h5:b.h5') == ['k0', 'k1']
'''),
]
