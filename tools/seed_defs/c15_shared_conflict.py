PROPERTY = 'C15'
EDITS = [('bversion/merge_client_and_server_changes.py', """            if server_file_info['status'] in ['new', 'changed']:
                result['conflict_files'].append({
                    'client_status' : 'Deleted',
                    'server_status' : 'Changed',
                    'file_info'     : server_file_info})
""", """            if server_file_info['status'] in ['new', 'changed']:
                deleted_changed['file_info'] = server_file_info
                result['conflict_files'].append(deleted_changed)
"""), ('bversion/merge_client_and_server_changes.py', """    # First handle file change detection""", """    deleted_changed = {'client_status' : 'Deleted', 'server_status' : 'Changed'}

    # First handle file change detection""")]
NEEDS = 'two files deleted on the client and changed on the server'
BREAKS = 'all such conflicts name the last of the files, the others are lost'
DEMO = '''
from bvh import *
from bversion.merge_client_and_server_changes import merge_client_and_server_changes as m
P = ['/a', '/b', '/c']
r = m({p: {'path': p, 'status': 'changed', 'hash': 'h'} for p in P}, {p: {'path': p, 'status': 'deleted'} for p in P})
check(sorted(i['file_info']['path'] for i in r['conflict_files']) == P, 'a conflict was lost', got=r)
'''
