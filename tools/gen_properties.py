#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so that the file stays readable)."""
import json, os
VS='bversion/storage/versioned_storage.py'; SD='bversion/storage/server_db.py'; SV='bversion/server.py'
CL='bversion/client.py'; CM='bversion/common.py'; JF='bversion/storage/journaling_filesystem.py'
FI='bversion/storage/client_filesystem_interface.py'; CD='bversion/storage/client_db.py'
MG='bversion/merge_client_and_server_changes.py'; HC='bversion/http/http_common.py'; HS='bversion/http/http_server.py'
HL='bversion/http/http_client.py'; CH='bversion/http/client_http_request.py'
CR='bversion/crypto.py'; BC='bversion/backup/crypto.py'; BP='bversion/backup/pipeline_common.py'; BS='bversion/backup/s3_interface.py'; RM='bversion/repo_manager.py'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop('C01','Commits are crash-atomic',
 "If the server process dies between any two durable effects of pushing a file, deleting files, committing or rolling back, the repository head still names either the version that was current before or the complete new one. Every commit record, directory listing and file content reachable from the head is present and intact at that moment, and remains so after the next client begins a commit, whether that resumes or discards the interrupted one.",
 ['crash_points','histories','inputs'],'every crash point of every server write operation, from every repository state those operations can produce, for every pushed content and path',
 'The suite interrupts one commit on the client side at one place; no test kills the server, and none looks at the order in which object, log and head writes become durable.',
 [VS,SD],[('log before store, objects before head, head by rename, bookkeeping last',VS+' fs_put_from_file/write_index_object/commit'),('garbage log and rollback',VS+' rollback, '+SD+' gc_log_item')],
 [('head','file naming the current commit',VS+' get_head/commit'),('gc_log','objects created by the open commit',SD),('active_commit_changes','pushed/deleted paths of the open commit',SD)],['repository directory','transient database'])

prop('C02','Committed history is immutable',
 "Once a version has been committed, no later push, delete, commit, rollback or abandoned commit alters or removes any stored object that version consists of. Listing that version, listing its changes, or fetching any of its files therefore keeps returning exactly what it returned when it was committed.",
 ['histories','inputs'],'every sequence of server operations after a commit, every stored object of every reachable version',
 'Tests read back only the newest state and one rolled-back commit; they cannot cover every later history or every object.',
 [VS,SD,SV],[('objects are only ever created under the hash of their content, never overwritten',VS+' write_index_object/fs_put_from_file'),('rollback deletes only logged objects, and objects are logged only when they did not exist',VS+' rollback')],
 [('index/, files/','content-addressed object store',VS)],['list_files','list_changes','pull_file'])

prop('C03','Rollback discards exactly the abandoned commit',
 "Rolling back an open commit leaves the head and every committed version as they were, removes every stored object that the open commit introduced, keeps every object that existed before it, and leaves no commit open. If the head already names a commit finished by that same operation, rolling back keeps that commit and all its objects.",
 ['histories','crash_points','inputs'],'every open commit (any set of pushes and deletes, any crash point before the rollback) on every repository',
 'One unit test rolls back two pushed files; it never combines shared content, a half-written commit or an already moved head.',
 [VS,SD],[('garbage log consulted by rollback',VS+' rollback'),('log cleared together with the open-commit record',SD+' clean_commit_state')],
 [('gc_log','objects to remove on rollback',SD),('active_commit_exists','open commit record',SD)],['repository directory','transient database'])

prop('C04','A commit is the previous version plus exactly the requested changes',
 "After a commit the new version lists precisely the files of the previous version with every pushed path mapped to the hash of the last content pushed for it and every deleted path removed, and nothing else. Its parent is the previous head, its author the given user, and its change list has one entry for each affected path, 'new' when the path did not exist before, 'changed' when it did, 'deleted' when it was removed; committing nothing leaves the head as it is.",
 ['inputs','histories'],'every previous version, every set of pushes and deletes in any order including repeats of a path and deletes of unknown paths',
 'The system test checks a handful of fixed files; no test deletes an unknown path in a list, pushes a path twice or deletes what was just pushed.',
 [VS,SD],[('change table keyed by path',SD+' add_to_commit/remove_from_commit/get_commit_state'),('tree built from merged state',VS+' commit')],
 [('active_commit_changes','one row per affected path',SD),('active_files','files of the head version',SD)],['list_files','list_changes','list_versions'])

prop('C05','Storing and reading a directory listing loses nothing',
 "For any set of rooted file paths with their recorded details, writing the listing to the object store and reading the resulting version back yields the same set of paths with the same details. No path is dropped, merged with another, moved, or given another path's details, whatever the nesting and however names repeat at different levels.",
 ['inputs'],'every finite map from rooted paths (any depth, any names) to file details',
 'Tests store a few shallow paths; the claim is about arbitrary trees and needs induction over their depth.',
 [VS],[('build_dir_tree, write_dir_tree, read_dir_tree, flatten_dir_tree',VS)],[('tree objects','one index object per directory',VS)],['list_files'])

prop('C06','Fetching a path agrees with the version listing',
 "Asking for a file by path in a version returns the details that version's listing records for exactly that path, and fails when the listing does not contain the path, including when it names a directory, a prefix or an extension of a listed path; a missing leading slash is supplied. Without an explicit version the current head is used.",
 ['inputs'],'every stored version and every requested path',
 'Tests fetch only paths that exist; missing paths, directories and prefixes are never asked for.',
 [VS,SV],[('recursive lookup',VS+' get_file_info_from_path'),('pull_file handler',SV)],(),['pull_file'])

prop('C07','Stored files are content-addressed and deduplicated',
 "A pushed file is stored under the SHA-256 of its bytes, the reported hash is that hash, and fetching a path of any version yields bytes with the hash recorded for it. Pushing content that is already stored never rewrites or removes the stored copy and never adds a second one.",
 ['inputs','histories'],'every file content, pushed in every repository state',
 'The suite checks two fixed contents; it never pushes existing content while looking at the stored copy.',
 [VS,CM,SV],[('hash then move',VS+' fs_put_from_file'),('hash_file',CM),('pull_file serves files/<hash>',SV)],[('files/','file objects named by hash',VS)],['repository directory','pull_file','push_file response'])

prop('C08','The change query returns the net effect since a version',
 "The changes reported between an older version and the head contain exactly the paths touched by any commit after that version, each with the entry of the latest commit that touched it. Asking from the head itself gives nothing, asking from before the first commit covers the whole history, and a version that is not an ancestor of the head is refused instead of answered.",
 ['inputs','histories'],'every commit chain of any length and every starting version',
 'Tests ask across one or two commits; ordering between several commits touching the same path is never exercised.',
 [VS],[('walk back from head, replay oldest first',VS+' get_changes_since')],(),['find_changed response'])

prop('C09','Version identifiers cannot reach outside the object store',
 "Reading a version or directory object accepts only identifiers made of lower-case hexadecimal digits, whatever string a client sends, so no request makes the server open a file other than an object of the requested repository's index. An object is returned only when it is of the kind asked for.",
 ['inputs'],'every string a client can send as a version identifier',
 'No test sends a malformed identifier.',
 [VS,SV],[('character check and type check',VS+' read_index_object')],(),['list_changes','list_files','pull_file','find_changed'])

prop('C10','No repository access without an authenticated session',
 "Every request other than the two authentication steps that touches a repository is refused, without revealing repository data and without changing repository state, unless it carries a session token issued for that repository to the same client address, not yet expired, whose user is permitted to use that repository. An expired session stays usable only while it owns the open commit.",
 ['inputs','histories'],'every request type, every session table content, every time and client address',
 'Tests only make authorised requests.',
 [SV,SD],[('have_authenticated_user called first by every handler',SV),('session table queries',SD+' get_session_token/gc_session_tokens')],
 [('session_tokens','issued sessions',SD),('config users','repositories each user may use',SV)],['all HTTP endpoints'])

prop('C11','A session is granted only for a fresh, single-use signed challenge',
 "A new session is created only when the request presents a challenge that this repository issued to the same client address, that has not expired and has not been used before, together with a signature of exactly that challenge that verifies under the named user's configured key, and that user is permitted to use the repository. A successful login consumes the challenge, a failed one creates no session, and clients older than the minimum version are refused.",
 ['inputs','histories'],'every login request against every token table, user configuration and time',
 'Tests only log in correctly.',
 [SV,SD],[('authenticate handler',SV),('token table',SD+' issue_token/get_token/delete_token/gc_tokens')],[('tokens','outstanding challenges',SD)],['begin_auth','authenticate'])

prop('C12','Writing needs the repository lock and the latest version',
 "A commit is begun only by a connection that obtained the exclusive lock of that repository and whose stated revision equals the repository's head; otherwise nothing of the repository's committed state changes. Pushing, deleting and finishing a commit are refused unless the same connection holds that repository's lock and a commit is open, and the lock is released when the commit is finished or the connection ends.",
 ['inputs','schedules','histories'],'every order of requests on every set of connections and repositories',
 'The system test uses one connection and one repository at a time.',
 [SV,VS,HS],[('lock flag kept in the connection context',SV+' begin_commit'),('flock',VS+' lock/unlock')],[('context.lock','lock ownership of the connection',HS)],['begin_commit','push_file','delete_files','commit'])

prop('C13','Pushed paths cannot contain traversal components',
 "A push whose path has a '.' or '..' component, with either slash or backslash as separator and at any position, or that does not start at the repository root, is refused before any file is written or any change recorded. Every other path is stored exactly as sent.",
 ['inputs'],'every path string',
 'No test pushes a hostile path.',
 [SV],[('component check',SV+' push_file')],(),['push_file'])

prop('C14','An interrupted commit is resumed only by its owner',
 "When a commit is begun while an earlier one was left open, its uploads are reported back and kept only if the authenticated user and the client address are those that opened it; for anyone else it is rolled back before the new commit starts. What a resuming client is told was already uploaded is exactly the set of paths whose recorded content is in the store.",
 ['inputs','histories'],'every pair of opening and resuming user, address and session',
 'One test resumes its own commit; none tries as another user.',
 [SV,VS,SD],[('owner comparison',SV+' begin_commit'),('resume',SD+' resume_commit')],[('active_commit_exists','owner of the open commit',SD)],['begin_commit response'])

prop('C15','Three-way classification never loses or overrides an edit',
 "Given the server's and the client's changes since the common version, every path known to either side is put in exactly one category: only the server changed it - client follows; only the client changed it - server follows; both changed it, or one changed and the other deleted it - conflict with both states named; both deleted it - removed on the client; neither - nothing. Each entry carries the details of its own path, the server's when the server knows the path, and the inputs are not modified.",
 ['inputs'],'every pair of finite change maps',
 'The unit test classifies one path at a time; interactions between many paths are not covered.',
 [MG],[('merge_client_and_server_changes',MG)],(),['find_changed response'])

prop('C16','Local change detection is exact',
 "Comparing the working copy with the manifest reports each file present now and not recorded as new, each recorded file whose modification time differs as changed, each recorded file no longer present (or now ignored) as deleted, and no other file; unmodified files appear only when asked for. Ignored files are never reported as new or changed, and the recorded state is not modified by the comparison.",
 ['inputs'],'every directory content, manifest and set of ignore filters',
 'The unit test has five hand-written states with at most two files.',
 [CM,CL],[('find_manifest_changes',CM),('find_local_changes',CL)],[('manifest','last synchronised state of each file',CD)],['status','commit','update'])

prop('C17','Working-copy transactions roll back from any interruption',
 "If a working-copy transaction made of any sequence of file writes, moves and deletes is interrupted at any point, including in the middle of copying or writing a file or during an earlier rollback, the next rollback restores every file of the working copy to its content before the transaction. Files the transaction created are moved to the backup area, not destroyed, and a finished transaction is never rolled back.",
 ['crash_points','histories','inputs'],'every operation sequence, every crash point inside it and inside recovery, every prior directory content',
 'Tests roll back only complete operations inside one process; none interrupts an operation or the recovery.',
 [JF,CD],[('undo entry made durable before the effect',JF+' do_action'),('reverse replay, removing each entry after it is done',JF+' rollback')],[('journal','pending undo entries',CD)],['working copy directory','.bvn/back'])

prop('C18','Manifest and working copy change together',
 "Putting, moving or deleting a file through the working-copy store makes the file change and the matching manifest change as one: after any failed step or the death of the process and the recovery that follows, either both are in effect or neither is. After success the manifest has exactly one entry for the path, with the file's times on disk and the given server hash, and entries of other paths are untouched.",
 ['inputs','crash_points','fault_sequences'],'every put, move and delete, failing or dying at any step',
 'Only successful puts and deletes are exercised, through the system test.',
 [FI,JF,CD],[('fs_put/fs_move/fs_delete inside a journal transaction',FI),('manifest rows committed with the journal clear',CD)],[('files table','manifest',CD)],['manifest.db','working copy directory'])

prop('C19','Update never overwrites local work and records only what it applied',
 "An update writes or deletes only files that the server reported as pulled or removed, or conflicts the user resolved to the server; pull-ignored paths are never written, and files with unresolved local edits are never touched. The working copy is recorded as being at the new version only after every such file has been fetched at that version and every removal applied, so that an update that failed or was interrupted part way is completed by running it again.",
 ['inputs','fault_sequences','histories'],'every server answer, every manifest, every failure of a fetch and every interruption',
 'The system test has one interruption and no failing fetch.',
 [CL,FI],[('update',CL),('resolve_update_conflicts',CL)],[('have_revision','version the working copy is at',CD)],['working copy directory','manifest.db'])

prop('C20','Conflicts are resolved exactly as the user chose',
 "Each conflicting path resolved to the server is fetched when the server changed it and deleted when the server deleted it; each path resolved to the client keeps the client's state for the next commit. A resolution file that does not name exactly the conflicting paths, or names any other side, aborts the update before any file is touched, and the manual choice writes a resolution file listing every conflict and stops.",
 ['inputs'],'every set of conflicts and every resolution choice or file',
 'The system test resolves one fixed set of four conflicts.',
 [CL],[('resolve_update_conflicts',CL)],[('conflict_resolution','user-edited resolution file',CL)],['update'])

prop('C21','A client commit sends exactly the local changes and records only success',
 "A client commit starts from the revision the working copy is at, leaves the server with exactly the local deletions, additions and changes to commit, dropping whatever an interrupted attempt left that is no longer wanted, and skips an upload only when the server already holds, from that attempt, the identical content for that path. Only if every step was accepted does it ask the server to commit and then record the new revision and files; after any refusal it records nothing, and a refused deletion or upload makes it ask for an abort.",
 ['inputs','fault_sequences'],'every set of local changes, every partial earlier upload, every refusal by the server',
 'The system test has one interrupted commit and no refusing server.',
 [CL],[('commit',CL)],[('have_revision','version the working copy is at',CD)],['requests sent to the server','manifest.db'])

prop('C22','Message framing delivers exactly the declared bytes',
 "Reading a message body yields exactly the declared number of bytes in order, however the network splits the stream and wherever the header block ended, never takes bytes of a following message, and reports a connection that closes early as an error instead of a short body. Header names without colons and values survive generation and parsing, names in lower case, as long as neither has line breaks or surrounding blanks.",
 ['inputs','schedules'],'every body length, every split of the byte stream, every header map',
 'The HTTP layer is replaced by a mock in every test.',
 [HC,HS,HL,CH],[('read_body',HC),('generate_headers/parse_headers',HC)],(),['http client and server'])

prop('C23','Unlocking a private key gives back the generated key',
 "A private key produced by key generation and then unlocked yields the very key that was generated: directly when it was stored unencrypted, and with the same password when it was encrypted. With a wrong password, unlocking an encrypted key fails instead of returning some other key.",
 ['inputs'],'every key, password, salt and nonce',
 'The unit test only checks that unlocking an encrypted key does not raise.',
 [CR],[('make_keypair/unlock_private_key',CR)],(),['keygen','every client command'])

prop('C24','Backup streams decrypt to what was uploaded',
 "Data uploaded through the encrypted backup stream and downloaded again with the same password yields the same bytes, for every length from one byte up, including exact multiples of the chunk size. The format header stored with the data parses back to the settings it was written with, and is authenticated with every chunk.",
 ['inputs'],'every data length and content, every chunk size and format header',
 'The backup code has no tests.',
 [BC,BP,BS,RM],[('streaming_encrypt/streaming_decrypt',BC),('serialise/parse_pipeline_format',BP),('streaming_upload/streaming_download',BS)],(),['objects in the bucket'])

prop('C25','A backed-up commit is marked only when complete',
 "The marker saying that a commit is backed up is uploaded only after that commit's record, every directory listing and every non-empty file it contains is on the remote, so an interrupted backup is completed by the next run. Every object is uploaded encrypted, and under the hash naming it locally.",
 ['histories','crash_points','inputs'],'every commit chain, every set of objects already on the remote, every interruption between uploads',
 'The backup code has no tests.',
 [RM],[('backup',RM)],[('commits/<hash>','marker object on the remote',RM)],['objects in the bucket'])

prop('C26','Restore rebuilds every version reachable from the backed-up head',
 "Restoring fetches the head, every commit from it back to the first, every directory listing those commits name and every file those listings name, and stores each under the place its hash determines, with empty files recreated. No object of the chain is left out.",
 ['inputs','histories'],'every backed-up commit chain and tree',
 'The backup code has no tests.',
 [RM],[('restore',RM)],(),['restored repository directory'])

prop('C27','Integrity check and garbage collection judge every object correctly',
 "Verification reports a problem, or fails when it cannot even read the history, exactly when some object that the history needs is missing, some stored object no longer matches its hash, or commits exist without a head. Garbage collection never removes an object reachable from the head or needed by an open commit, removes every other object, and releases the lock when done.",
 ['inputs','histories'],'every object store content and head',
 'Neither command has a test.',
 [VS,RM],[('get_reachable_objects/get_all_object_hashes/verify_fs/garbage_collect',VS)],(),['bvn_repo verify','bvn_repo gc'])

prop('C28','Path joining is lossless and stays below its first component',
 "Joining path fragments of which at least one has a component yields exactly their non-empty components in order, separated by single slashes, rooted if and only if the first fragment is rooted and slash-terminated if and only if the last one is. Joining joined paths gives the same result as joining all fragments at once.",
 ['inputs'],'every list of path fragments',
 'Path joining is used everywhere but has no test of its own.',
 [CM],[('cpjoin',CM)],(),['every stored path'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
print(len(P))
