"""What each check claims, and what it leaves unchecked.  Read by pyvc/check.py (evidence) and tools/gen_manifest.py."""
TRUST_BASE = [
 'the verifier itself: pyvc (symbolic executor for the Python subset of the repository, loop summaries, obligation generator), written for this task',
 'z3 4.x (Python bindings) and cvc5 1.1.2 as back ends',
 'Python integers are mathematical (exact: Python has no overflow); floats are treated as reals; evaluation order and exceptions as in CPython 3.12',
 'no monkey-patching, no signals and no second thread changes the local state of a verified function between two of its statements',
]
B = {}   # what the concrete stand-in does
B['C01'] = 'real server operations (begin, pushes, deletes, commit, abort, resume, rollback by another user) on random small repositories (up to 6 files); the process is ended before every durable effect (file write, half write, rename, unlink, SQL commit) in turn, then the store is checked and recovered by every kind of next client, including a second crash.'
B['C02'] = 'random histories of up to ~12 server operations by two users on up to 6 paths; after each step every object of every recorded version is re-read and compared byte for byte.'
B['C03'] = 'random open commits (up to ~8 operations, shared and new contents, crash at a random effect) rolled back by each route; full store and database comparison.'
B['C04'] = 'random sequences of pushes and deletes (up to 4 commits, up to 9 paths, repeats, unknown deletes) against a map model; listing, change list, parent, author, message compared.'
B['C05'] = 'random trees of up to 25 paths, depth up to 6, repeated and odd names, written and read back.'
B['C06'] = 'every path, prefix, extension and directory of random versions asked for by path, compared with the listing.'
B['C07'] = 'random contents of sizes around buffer limits, pushed twice and in different commits; inode, times and bytes of the stored copies watched.'
B['C08'] = 'random commit chains of up to 6 (sometimes 60) commits on up to 6 paths; every ancestor, the root, the head, foreign and malformed versions asked.'
B['C09'] = 'every handler that takes a version with some hundred hostile strings, every file open of the process recorded; kinds of objects swapped.'
B['C10'] = 'every handler of the server with missing, foreign, expired, other-address, other-repository and permitted sessions, before and after moves of the clock.'
B['C11'] = 'login attempts with every combination of wrong, reused, foreign, expired challenge, signature, user, repository, address and client version.'
B['C12'] = 'random request orders on several connections (threads) and two repositories, real flock and real HTTP connection end.'
B['C13'] = 'random paths of up to 6 components from a list of traversal look-alikes with both separators; store compared.'
B['C14'] = 'open commits left behind in random states and begun again by the same or another user, address or session; told-uploaded set compared with the store.'
B['C15'] = 'all 24 one-path states exhaustively, random maps of up to ~12 paths.'
B['C16'] = 'random manifests, listings and directories of up to 12 paths with random filters.'
B['C17'] = 'random transactions of up to ~8 operations on 6 names, process ended before every effect (also half writes), and again inside the recovery.'
B['C18'] = 'random put, move, delete sequences with each effect failing or ending the process.'
B['C19'] = 'a real server (in process) and a real working copy; random histories, local edits, failing fetches, process ends, conflicts; files, manifest and revision compared with a model.'
B['C20'] = 'random conflict sets (every kind) with every resolution choice, edited resolution files; files, manifest and next commit compared.'
B['C21'] = 'random local changes with partial earlier attempts, refusals injected at each request, edits during the commit; requests, server state and recorded state compared.'
B['C22'] = 'random bodies up to 200 kB, random splits of the stream, early close, random headers, against the real server and client classes over stub sockets.'
B['C23'] = 'random keys and passwords through key generation and unlocking, wrong passwords, real libsodium with weak limits.'
B['C24'] = 'random data of 1 byte to several chunks, chunk sizes 1 to 100 and the real one, against a stub bucket; tampered headers.'
B['C25'] = 'random repositories of up to 4 commits backed up to a stub bucket, process ended before every upload, order and completeness checked after each.'
B['C26'] = 'random repositories of up to 5 commits backed up to a stub bucket, restored, compared byte for byte.'
B['C27'] = 'random repositories of up to 4 commits; objects removed, altered, added; verification and garbage collection compared with a reference reachability.'
B['C28'] = 'random lists of up to 5 fragments from an alphabet of slashes, dots, blanks, against a reference join.'
LEVELS = {}
for _p in B:
    LEVELS[_p] = dict(level='exploration', bounded=B[_p], note='Bounded run-time check of the contract on the real code, not a proof.', technique='run-time checking of the contracts on the real code (bounded stand-in; proof not built yet)', assumptions=['only the executions described in the rule are covered'])
def proof(p, note, assumptions, trusted=()):
    LEVELS[p] = dict(level='proof', bounded=B[p], note=note, technique='contract-based deductive verification of the real source (own VC generator, z3/cvc5); failed obligations replayed by run-time contract checks', assumptions=list(assumptions), trusted=list(trusted))

proof('C15', 'merge_client_and_server_changes: every postcondition proved for all finite change maps (loops summarised, no bound).',
      ['the two arguments are maps from path to an entry with that path and one of the four status words (what find_manifest_changes and the server produce)'])
SQLA = 'sqlite3 does what the SQL text says on the tables of db_init; table rows carry the columns of the schema'
proof('C10', 'Every handler of the routing table (found in the source on each run) is executed symbolically for every request, configuration and database content: nothing is touched, changed or told before the session check of the statement holds.',
      [SQLA, 'the configuration gives a path and an override (or None) for every repository', 'the row of an open commit names a session token (not NULL)', 'store methods are called by an arbitrary contract: only the fact and target of the call matter here'])
proof('C11', 'begin_auth and authenticate are executed symbolically for every request, configuration, clock and table content, with a concurrent login consuming the challenge at every statement.',
      [SQLA, 'pysodium.crypto_sign_verify_detached raises unless the signature is valid', 'randombytes never repeats', 'the configuration gives a path and an override (or None) for every repository'])
proof('C12', 'begin_commit with the real lock/unlock, every writing request, every other request and the connection loop of the HTTP server are executed symbolically for every request, lock state and outcome of each step (also exceptions).',
      [SQLA, 'flock excludes other open files and is released by LOCK_UN on the same open file', 'the session check is used by its contract (C10), the store methods as arbitrary changes that need the lock', 'the lock of another repository taken earlier on the same connection is not followed'])
proof('C09', 'read_index_object is proved for every identifier; every function that reads objects and the pull_file handler are proved to open nothing but the head file, objects read through it, and the file the version lists.',
      ['a JSON text that is stored as an object of the kind asked for has the fields the writers give it (proved for the writers, tampered stores excluded)', 'file hashes listed in tree objects are hash values (written by fs_put_from_file)'])
proof('C06', 'get_file_info_from_path (version given, and head) and its recursive helper are proved against the listing of the version for every path, tree and depth: a path is answered exactly when the listing has it, with exactly the details recorded for it.',
      ['the path asked for is not the empty text', 'objects read are what the writers stored (read_index_object by its contract, C09)'])
proof('C05', 'build_dir_tree, write_dir_tree, write_index_object, read_dir_tree, flatten_dir_tree (with their recursive helpers) and get_commit_files are each proved against one view of a listing (component list -> details); composed, the listing read back is the listing written, for every set of paths, names and depth.',
      ['paths are rooted texts (C13)', 'JSON round-trips the values stored', 'stored objects stay as written (C02)'])
proof('C16', 'find_manifest_changes and find_local_changes are proved for all recorded states, files found, filters and both modes; get_file_list (with its recursive helper) is proved to list every regular file below the directory once, with its own path and times.',
      ['the manifest read (client_db.get_manifest) maps each path to its own entry', 'entries have numeric modification times', 'the directory does not change while it is listed'])
INVA = ['sqlite3 does what the SQL text says on the tables of db_init, and a transaction is atomic and durable at its commit', 'rename and unlink are atomic, file data that was written is there after a crash of the process (power failure is not modelled)', 'sha256 does not collide; a commit record is never one that exists already (its time stamp is new)', 'the server is called under the commit lock (C12) by one thread at a time', 'objects read are what the writers stored (read_index_object by its contract, C09); listing and trees by the contracts of C05']
proof('C04', 'begin, resume, fs_put_from_file, fs_delete, get_commit_state and commit of versioned_storage are each proved against a model of the commit: working listing = head listing updated by the recorded changes; the version that commit makes lists exactly that, names its parent, author, message and the recorded changes; for every history.', INVA)
proof('C01', 'An invariant of the repository directory and database is proved at every durable effect (file change, SQL commit) of every storage operation, from every state that satisfies it; rollback (recovery) is proved from every such state: head old or complete new, nothing of a committed version missing.', INVA)
proof('C02', 'Every storage operation is proved, at every file change and from every state that satisfies the invariant, to leave each object of the committed versions present and unaltered, and the head to be moved only to a complete version whose parent is the old head.', INVA)
proof('C03', 'rollback is proved from every state of the invariant (any crash point of any operation): the log covers every object the open commit introduced, after it exactly the objects of committed versions are left, log and change list empty; a finished commit is kept.', INVA)
proof('C08', 'get_changes_since (net recursion over the recorded change lists) and the find_changed handler are proved for every chain of commits of any length, every starting version and every sequence of recorded changes: the answer maps the listing at the version to the listing at the head.',
      ['the commit chain is what commit() recorded: each commit names its parent and the changes between the two listings (C04)', 'objects read are what the writers stored (read_index_object by its contract, C09)'])
proof('C07', 'hash_file is proved to hash all bytes of the file for every way the reads split it; fs_put_from_file and write_index_object (in every state of the store invariant) name the object by the hash of its content and never write one that exists; push_file gives the store exactly the bytes received; pull_file streams exactly the stored bytes.',
      INVA[:3] + ['the file sent is not replaced between its stat and the reads (C02)', 'the upload arrives complete (read_body: C22)'])
proof('C13', 'The push_file handler is executed symbolically for every path text and request: a path with a traversal component (split on both separators) changes nothing and is refused; any other path reaches the store unchanged or not at all.',
      ['re.split / str.split on the two separators give the components of the path', 'the session check and the lock are used by their contracts (C10, C12)'])
proof('C14', 'begin_commit is proved for every user, address, recorded commit and fault: only the owner (same user and address) resumes, anybody else rolls back before beginning; what is told as uploaded is exactly what the commit recorded. begin (with and without resume), rollback, fs_put_from_file and fs_delete are proved in every state of the store invariant to keep and clear the record accordingly.', INVA)
proof('C23', 'make_keypair and unlock_private_key are executed symbolically, composed, for every key, password, salt and nonce: the private key unlocked is the one generated, with any other password nothing is returned; prompt_for_new_password returns only a password typed twice.',
      ['crypto_secretbox_open inverts crypto_secretbox for the same key and nonce and raises otherwise', 'crypto_pwhash is a function of its arguments without collisions', 'base64 decoding inverts encoding', 'the lengths of keys, nonces, salts and tags are those of libsodium'])
proof('C28', 'cpjoin is proved for every number of fragments of any length and content: components in order, single slashes, rooted and ended as the statement says; the grouping law is proved by induction over that contract.',
      ["str.split('/') and '/'.join behave as documented (pieces between slashes, joined components are undone by splitting)"])
proof('C22', 'The body reader (read, read_all, dump) and its loops are proved for every split of the stream, every length and every early close; header generation and parsing, the request and answer preambles, the connection loop of the server and the sending side of the client are proved against the same byte theory.',
      ['socket.recv(n) gives at most n bytes of what the peer sent, in order, b"" only when it closed', 'bytes.find, partition, split, strip, lower and slicing behave as documented (axioms of the byte theory, listed in pyvc/specs/c22.py)', 'json.dumps gives ASCII text', 'the file sent keeps its length between its stat and the reads', 'one request is in flight at a time (what follows the header block in the same chunk belongs to the body)'])
CLIENT = ['sqlite3 does what the SQL text says on the tables of client_db, rows of the journal are numbered upwards, a transaction is atomic and durable at its commit', 'renames within the working copy are atomic; data written is there after a crash of the process (power failure is not modelled)', 'only these operations change files of the working copy during the transaction; no directory appears or disappears', 'paths of the working copy lie outside .bvn/tmp and .bvn/back']
proof('C17', 'Every operation of journaling_filesystem (write, move, delete, backup and temporary names, begin, commit) is proved, at every durable effect and for every failing step, to keep: undoing the journal gives the files as they were; every step of rollback, from every state and journal of any length, keeps it, so rolling back restores them, however often it is interrupted.', CLIENT)
proof('C18', 'fs_put, fs_move and fs_delete are executed symbolically with the real journal and database code for every path, content, manifest and failing step: at every durable effect either undoing restores files and manifest or both are as asked for.', CLIENT)
UPD = ['find_local_changes, the operations on the working copy and client_db are used by their contracts (C16, C18)', 'the server names each path in one list at most (C15), conflicts with status Changed or Deleted on either side', 'the session token is valid; any request may be refused or fail']
proof('C19', 'update is executed symbolically for every answer of the server, every manifest, filter and failing step (conflict resolution by its contract, C20): what is written, fetched, removed and recorded, and when.', UPD)
proof('C21', 'commit of the client is executed symbolically with the real client_db code, for every set of local changes, every staged rest of an earlier attempt and every refusing or failing request, against a server that keeps staged changes as C04 and C14 say.',
      ['find_local_changes by its contract (C16); a file reported deleted is one of the version the working copy is at, as is every path of the manifest', 'begin_commit, push_file, delete_files and commit by their contracts (C04, C12, C14)', 'sqlite3 does what the SQL text says on the tables of client_db', 'the content of a file does not change between looking at it and sending it (times recorded are those from before)'])
proof('C20', 'resolve_update_conflicts is executed symbolically for every set of conflicts, every choice and every text of a resolution file (the lines it splits into, with a loop invariant for cutting it into blocks).',
      ['a conflict has status Changed or Deleted on either side, and one path (C15)', 'str.split, strip and lower are functions of the text; a separator line is exactly the separator', 'question_user returns one of the choices offered', 'what update does with the lists it is given is C19'])
proof('C24', 'preprocess_config, streaming_upload and streaming_download with the pipeline and S3 classes are executed symbolically, composed, for data of any number of pieces (loop invariants over the pieces), any chunk size, password, salt and stream header; the header format (serialise, parse) and hash_password (with any cache) are proved for every setting.',
      ['libsodium secretstream: pull inverts push in order, for the same key, stream header and additional data, and raises otherwise', 'S3 completes an object as the concatenation of the parts listed; read(n) of files and bodies gives n bytes unless the end comes first', 'json.loads inverts json.dumps on dictionaries of texts and numbers', 'the header is shorter than 2**32 bytes'])
proof('C27', 'get_reachable_objects (loop invariants over the commit chain, the trees and their files; the recursive walk by its contract) and get_all_object_hashes (over every content of the store) are proved to give exactly what the history needs and what is there; verify_fs, remove_garbage (with the real SQL of server_db) and garbage_collect are proved over those contracts for every head, store content, open commit and lock state: reported fine if and only if nothing is missing or altered, exactly the garbage is removed, the lock is held while removing and released however it ends.',
      ['SHA-256 is injective on what is stored; an object whose content has its hash is what the writers stored (JSON object with a type; trees name files with hashes)', 'index and files contain only directories with names of two characters which hold files', 'a commit is not its own ancestor', 'flock behaves as its manual says; nothing else changes the store while the lock is held'])
proof('C26', 'restore is executed symbolically for an arbitrary repository, commit chain and trees (loop invariants over the chain, the directories, the trees and their files; the recursive download by its contract): when it ends without an error, the head, every commit of the chain, every tree below a commit and every file they name is at the place of its hash with what the bucket held, empty files recreated, and nothing else was written.',
      ['the bucket holds what backup uploaded (C25) and the stream gives it back (C24); a download either gives the object or raises', 'the stored objects are well formed (trees name files with hashes); a commit is not its own ancestor', 'cpjoin joins path components (C28); directories made are there', 'repositories have different directories'])
proof('C25', 'backup is executed symbolically for an arbitrary repository, commit chain, trees and content of the bucket (loop invariants over the chain, the remote listings, the commits, the trees, their files and the uploads; the recursive walk by its contract): at every upload of a marker the record, every directory listing below the commit and every non-empty file they name are on the remote; nothing is uploaded but through the encrypting stream (C24), from the file of the hash naming it; whenever the bucket fails nothing is marked that is not complete, and a backup that ends has marked every commit, from any earlier state of the bucket. list_remote_objects gives exactly the objects under the prefix, each once, for every way the listing is cut into pages (loop invariant over the pages). streaming_upload is proved to return only when everything it read was sent and the upload completed, whichever request of it fails.',
      ['S3 lists names in order, says whether more follow, and gives an empty page only when nothing is left; a request either does what it is asked or raises', 'markers in the bucket name commits of the local chain; the stored objects are well formed, of one kind, and not the empty text; a commit is not its own ancestor', 'cpjoin joins path components (C28); streaming_upload encrypts (C24)', 'repositories have different names'])
NOT_APPLICABLE = {}
