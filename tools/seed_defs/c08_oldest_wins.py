PROPERTY = 'C08'
EDITS = [('bversion/storage/versioned_storage.py', """        return {change['path'] : change for change_log in reversed(change_logs) for change in change_log['changes']}
""", """        result: Dict[str, Any] = {}
        for change_log in change_logs:
            for change in change_log['changes']:
                # deleted wins over earlier changes
                if change['path'] not in result or change['status'] == 'deleted': result[change['path']] = change
        return result
""")]
NEEDS = 'a file deleted in one commit and added again in a later one, both after the version asked from'
BREAKS = 'a file which exists again is reported as deleted'
DEMO = '''
from bvh import *
with world() as w:
    c = w.conn(); c.begin(); c.push('/a', b'1'); c.push('/k', b'1'); v = c.commit()
    c.begin(); c.delete(['/a']); c.commit()
    c.begin(); c.push('/a', b'2'); c.commit()
    r = c.find_changed(v)['sorted_changes']
    check([i['path'] for i in r['client_pull_files']] == ['/a'] and r['to_delete_on_client'] == [], 'the net effect is wrong', got=r)
'''
