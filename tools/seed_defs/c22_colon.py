PROPERTY = 'C22'
EDITS = [('bversion/http/http_common.py', """        split_header = i.split(b':', 1)
        headers[split_header[0].strip().decode('utf8').lower()] = split_header[1].strip().decode('utf8')
""", """        split_header = i.rsplit(b': ', 1) if b': ' in i else i.split(b':', 1)
        headers[split_header[0].strip().decode('utf8').lower()] = split_header[1].strip().decode('utf8')
""")]
NEEDS = 'a header value with a colon followed by a blank, such as a commit message'
BREAKS = 'the header name swallows part of the value'
DEMO = '''
from bvh import *
from bversion.http.http_common import generate_headers, parse_headers
h = {'commit_message': 'fix: the thing', 'mode': 'commit'}
got = parse_headers(generate_headers(h).split(b'\\r\\n')[:-1])
check(got == h, 'the headers did not survive', got=got)
'''
