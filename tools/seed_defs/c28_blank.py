PROPERTY = 'C28'
EDITS = [('bversion/common.py', """            if item != '':
                split_items.append(item)
""", """            if not item.isspace() and item != '':
                split_items.append(item)
""")]
NEEDS = 'a path with a component that consists of blanks'
BREAKS = 'the component is dropped, so two different paths are joined to the same one'
DEMO = '''
from bvh import *
from bversion.common import cpjoin
check(cpjoin('/a', 'b/ /c') == '/a/b/ /c', 'a component was lost', got=cpjoin('/a', 'b/ /c'))
'''
