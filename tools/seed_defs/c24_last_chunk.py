PROPERTY = 'C24'
EDITS = [('bversion/backup/s3_interface.py', """        res = self.res['body'].read(self.chunk_size + add_bytes)
        return res if res != b'' else None
""", """        res = self.res['body'].read(self.chunk_size + add_bytes)
        return res if len(res) > add_bytes + 1 else None
""")]
NEEDS = 'a last chunk of exactly one byte'
BREAKS = 'the last byte is lost'
DEMO = '''
from bvr import *
limits(3, 8192); r = Remote(); conn = session(r, {}, 16)
for n in (1, 15, 16, 17, 32, 33):
    data = bytes(range(n))
    with quiet(): repo_manager.streaming_upload(conn, repo_manager.config, 'k%d' % n, io.BytesIO(data))
    f = io.BytesIO()
    with quiet(): repo_manager.streaming_download(conn, repo_manager.config, 'k%d' % n, None, f)
    check(f.getvalue() == data, 'other bytes', length=n, got=len(f.getvalue()))
'''
