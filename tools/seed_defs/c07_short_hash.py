PROPERTY = 'C07'
EDITS = [('bversion/common.py', """    with open(file_path, 'rb') as h_file:
        while True:
            file_buffer = h_file.read(block_size)
            if len(file_buffer) == 0: break
            sha.update(file_buffer)
""", """    with open(file_path, 'rb') as h_file:
        for _ in range(1024):
            file_buffer = h_file.read(block_size)
            if len(file_buffer) == 0: break
            sha.update(file_buffer)
""")]
NEEDS = 'files larger than 64 MB'
BREAKS = 'only the first 64 MB of a file are hashed, so different files are taken for the same content'
DEMO = '''
from bvh import *
from bversion.common import hash_file
p = os.path.join(S, 'big'); 
with open(p, 'wb') as f:
    for i in range(65): f.write(b'%07d' % i * 149797)
h = hashlib.sha256(); h.update(open(p, 'rb').read())
check(hash_file(p) == h.hexdigest(), 'the hash is not that of the bytes')
'''
