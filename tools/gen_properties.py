#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Reading a file returns exactly the plaintext stored in it",
  "For every regular file of a supported gocryptfs volume (HKDF on or off, padded or raw base64 names, GCM or AES-SIV content encryption), reading it through the proxy returns exactly the plaintext that was encrypted into it, whatever its length (empty, header only, partial last block, many hundreds of blocks) and whether or not it contains file holes. The same holds for every offset and length a client reads at, and for repeated reads in any order with reads of other files.",
  ["inputs","histories","configurations"],"all file contents and lengths, hole layouts, volume feature flags, read offsets and read histories",
  "No existing test reads a file through the file tree or the handlers at all; contentenc tests check a few offsets only.",
  ["filetree/filetree.go","filetree/decrypt.go","gocrypt/contentenc/content.go","gocrypt/contentenc/offsets.go","handlers/decrypt.go","requester/requester.go"],
  [("decryptFile","filetree/decrypt.go"),("DecryptBlocks/DecryptBlock","gocrypt/contentenc/content.go"),("Fileread","handlers/decrypt.go")],
  observe=["bytes a pkg/sftp client receives","bytes returned by FileTree.ReadFile"])
p("C02","Tampered content is rejected, never served",
  "Whatever the untrusted remote does to a stored file (flips bits, truncates inside a block or extends it, reorders, duplicates, drops or splices in blocks of other files, swaps or corrupts the header), a read through the proxy either fails or returns plaintext every block of which was authentically encrypted for that file id at that block position, whole all-zero ciphertext blocks being holes. A file with any block that does not authenticate is not served at all, not even partially.",
  ["inputs","fault_sequences"],"all ciphertext manipulations of all files",
  "Existing tests never decrypt a file, so no test sees a corrupted one; authenticity has to hold for every manipulation.",
  ["gocrypt/contentenc/content.go","gocrypt/contentenc/file_header.go","filetree/decrypt.go","gocrypt/siv_aead/siv_aead.go"],
  [("AEAD open with block number and file id as associated data","gocrypt/contentenc/content.go: DecryptBlock, concatAD"),("header checks","gocrypt/contentenc/file_header.go: ParseHeader")],
  observe=["bytes or error returned by a read"])
p("C03","A listing shows every decryptable entry once, and nothing else",
  "Listing a directory returns, exactly once each, the plaintext name of every entry whose encrypted name is valid under that directory's IV, with its type, however many entries there are. Nothing else appears: gocryptfs metadata files, hashed long-name files and undecryptable entries are left out without hiding their siblings, and no listed name is empty, '.', '..' or contains '/' or a NUL.",
  ["inputs","configurations"],"all directory sizes, name bytes and lengths, mixtures of valid, foreign and corrupt entries",
  "No test lists an encrypted directory; the client-visible paging of large listings is never exercised.",
  ["filetree/filetree.go","gocrypt/nametransform/names.go","gocrypt/nametransform/pad16.go","handlers/decrypt.go","handlers/proxy.go"],
  [("rangeInDir","filetree/filetree.go"),("DecryptName","gocrypt/nametransform/names.go"),("listerat.ListAt paging","handlers/proxy.go")],
  observe=["entries a pkg/sftp client receives from ReadDir"])
p("C04","A path resolves to its own object after any history of lookups",
  "For any history of stat, list and read requests (any number, depth and order of directories, any spelling of the paths), a client path resolves to exactly the remote object whose decrypted path equals the normalised client path. A path that does not exist, or that goes through a regular file, fails and never resolves to another object; listing a file and reading a directory fail.",
  ["histories","inputs"],"all directory trees and all request histories, in particular more directories than any lookup cache holds",
  "Path lookup has no test; the path cache is tested with 3-4 entries in fixed orders.",
  ["filetree/filetree.go","filetree/fastcache.go"],
  [("findPath/findInDir","filetree/filetree.go"),("FastCache","filetree/fastcache.go")],
  state=[("path cache","plaintext directory path to ciphertext path","filetree/fastcache.go")],
  observe=["identity (unique content, unique mtime) of the object a reply describes"])
p("C05","Reported sizes and attributes agree with the stored object",
  "The size the proxy reports for a regular file, in a listing, by stat or by fstat of an open file, equals the number of bytes a full read of it returns. Its name is the plaintext base name, and its type, permission bits and modification time, like those of a directory, are those of the remote object, identically in stat and in the listing.",
  ["inputs","histories"],"all file sizes, modes, times and volume layouts",
  "Size conversion is never compared with what a read returns, and stat is untested.",
  ["filetree/filetree.go","filetree/fileinfo.go","gocrypt/contentenc/offsets.go","handlers/decrypt.go"],
  [("CipherSizeToPlainSize","gocrypt/contentenc/offsets.go"),("plainFileInfo","filetree/fileinfo.go"),("Stat","filetree/filetree.go")],
  observe=["FileInfo a pkg/sftp client receives"])
p("C06","The proxy is strictly read-only and never acknowledges a change",
  "Every client request that would modify the volume (open for writing, creating, appending or truncating, setstat, fsetstat, mkdir, rmdir, remove, rename, symlink) is never acknowledged with success: it is answered with a failure status. No sequence of client requests makes the proxy send the remote anything but read requests, so the remote tree is bit for bit unchanged.",
  ["histories","inputs"],"all sequences of client requests, flags and targets",
  "No test drives the handlers.",
  ["handlers/decrypt.go","filetree/filetree.go","backend/provider.go"],
  [("Filewrite/Filecmd refuse","handlers/decrypt.go"),("read-only accessor","filetree/filetree.go: FSAccessor"),("unsupported operations fail","filetree/filetree.go: WriteFile, Mkdir, Rename, Remove")],
  observe=["SFTP packet types received by the remote","status codes received by the client"])
p("C07","Malformed remote data never takes the proxy down",
  "Once the proxy is serving, nothing the untrusted remote returns (directory IVs of any length, entry names, sizes and types, file bytes of any length, an error at any call) makes it panic or stop answering. The affected request fails or is answered from valid data only, and requests for undamaged objects keep being answered correctly during and after it.",
  ["inputs","fault_sequences"],"all byte strings and metadata a remote can return at each call",
  "Tests only feed well-formed data; a panic on a remote-controlled length needs inputs nobody wrote down.",
  ["filetree/filetree.go","filetree/decrypt.go","gocrypt/nametransform/names.go","gocrypt/contentenc/content.go","gocrypt/contentenc/offsets.go"],
  [("length checks before EME/AEAD","gocrypt/nametransform/names.go, filetree/filetree.go, filetree/decrypt.go")],
  observe=["process exit, panic trace","replies for undamaged objects"])
p("C08","The proxy never reaches outside the configured remote root",
  "Every remote path the proxy reads, lists or stats is the configured encrypted root or lies beneath it, for every path a client sends (dot-dot sequences, doubled slashes, odd bytes) and for every entry name or link target a hostile remote returns. Files directly visible in the encrypted tree, such as the volume's configuration file and directory IV files, cannot be fetched or statted by a client under their ciphertext names.",
  ["inputs","histories"],"all client paths and all remote listings",
  "No test observes the remote paths that result from client paths.",
  ["filetree/filetree.go","gocrypt/nametransform/names.go","handlers/decrypt.go"],
  [("path normalisation and per-component lookup","filetree/filetree.go: findPath"),("name sanitising","gocrypt/nametransform/names.go: DecryptName")],
  observe=["paths received by the remote"])
p("C09","A cached or shared request is answered with its own result",
  "Under any interleaving of concurrent file reads, directory reads and name decryptions, with the remote delaying and failing arbitrarily and the caches being cleared at any moment, each request returns a result the backend produced for exactly that kind of request and that key, or an error. Data delivered by a failed backend call is never returned as a success, empty results are delivered as such, and without a backend failure or a cache clear during the request it does not fail.",
  ["schedules","histories","fault_sequences"],"all interleavings of requests, completions, failures and clears",
  "Tests use one key, five goroutines and one clear; key mix-ups, failure and clear races need schedules they do not reach.",
  ["requester/makerequest.go","requester/requester.go","requester/synccache.go","requester/complexkey.go","requester/decryptname.go","requester/readdir.go","requester/readfile.go"],
  [("cache entries and work tickets","requester/makerequest.go, requester/requester.go")],
  state=[("fileCache/dirCache/decryptCache","results by key","requester/requester.go")],
  observe=["unique value or error each call returns"])
p("C10","Identical requests share one remote fetch",
  "As long as the remote does not fail and the caches are not cleared, each file, each directory listing and each (name, IV) pair is fetched or decrypted at most once, however many clients ask for it, concurrently or later. Through the whole proxy, a directory's IV and its listing are therefore fetched at most once each.",
  ["schedules","histories"],"all interleavings of requests for equal and different keys",
  "Tests check five goroutines on one key; duplicated work shows only in particular interleavings.",
  ["requester/requester.go","requester/makerequest.go","requester/synccache.go"],
  [("atomic claim of a key","requester/synccache.go: GetOrInsert")],
  observe=["calls received by the backend"])
p("C11","Failures and stalls do not stick: service recovers",
  "A failed remote call fails only the requests that were waiting for it: the next request for the same item, made after the remote works again, succeeds. After a stall of any length during which any number of requests were outstanding or timed out, every item can be served again once the remote answers, and every call returns; no request is lost or blocked forever.",
  ["schedules","fault_sequences","histories"],"all failure and stall patterns of the remote, any number of waiting requests",
  "Tests fail a single key that never recovers and never stall the backend past a time-out.",
  ["requester/makerequest.go","requester/requester.go"],
  [("error entries are deleted and retried","requester/makerequest.go"),("workers never block on an abandoned requester","requester/requester.go, requester/makerequest.go")],
  observe=["completion and result of each call","blocked goroutines at quiescence"])
p("C12","After clearing the caches, nothing stale is returned",
  "A request that starts after the caches have been cleared is never answered with data the backend produced before the clear began; every kind of cached item is covered. This holds also when fetches were in flight while the caches were being cleared.",
  ["schedules","histories"],"all interleavings of clears with fetches of all kinds",
  "Tests clear once and compare with a constant, so stale and fresh results cannot be told apart.",
  ["requester/requester.go","requester/synccache.go","requester/makerequest.go"],
  [("ClearCache","requester/requester.go, requester/synccache.go")],
  observe=["version number carried by each result"])
p("C13","The path cache is an exact, linearizable LRU cache",
  "For every sequence of lookups, stores and clears the path cache behaves as an LRU cache of its capacity: a lookup returns the value most recently stored for that path or reports it absent, a lookup or store makes its path the most recently used, and storing a new path in a full cache evicts exactly the least recently used one. Concurrent use is equivalent to some sequential order of the calls.",
  ["histories","schedules"],"all operation sequences, capacities and interleavings",
  "Tests use capacity 3 and at most four stores; list corruption needs several refreshes in particular positions.",
  ["filetree/fastcache.go"],[("linked hash map","filetree/fastcache.go")],
  state=[("linked list + map","recency order","filetree/fastcache.go")],observe=["results of Find after each operation"])
p("C14","Concurrent remote calls never share a connection",
  "No two backend calls that overlap in time use the same SSH connection, for any number of concurrent callers, any mixture of calls and any failures. Each connection serves one call at a time: it is handed to another call only after the previous call has finished with it, including closing the remote file or directory it opened.",
  ["schedules","fault_sequences"],"all interleavings of calls, errors and connection losses",
  "The backend package has no tests.",
  ["backend/pool.go","backend/provider.go"],[("pool Get/Put","backend/pool.go"),("deferred Put after file close","backend/provider.go")],
  observe=["packets per connection at the remote"])
p("C15","Connections are reused, bounded, and dropped when dead",
  "While connections work, calls reuse idle ones: there are never more connections than concurrent calls, failing requests (missing file, permission) do not cost a connection, and once calls finish at most 32 connections stay open. A connection that turns out dead is closed and not used again, so that after the remote is reachable again each connection lost fails at most one call and all further calls succeed.",
  ["histories","schedules","fault_sequences"],"all mixtures of calls, error replies and connection losses at any packet",
  "The backend package has no tests.",
  ["backend/pool.go","backend/provider.go"],[("bounded pool","backend/pool.go"),("ping on error","backend/provider.go")],
  observe=["connections accepted and closed at the remote","results of calls"])
p("C16","Concurrent sessions each see the correct volume",
  "Any number of client sessions working at the same time through one proxy, with the remote answering slowly, out of order and sometimes failing, get for each request the reply a lone client would get, or an error if a remote call for that request failed. Replies are never mixed up between files, requests or sessions.",
  ["schedules","histories","fault_sequences"],"all interleavings of sessions, requests and remote replies",
  "No test runs the handlers, let alone concurrently.",
  ["handlers/decrypt.go","filetree/filetree.go","filetree/decrypt.go","requester/makerequest.go","gocrypt/contentenc/bpool.go","gocrypt/contentenc/content.go","backend/pool.go"],
  [("per-request buffers and pools","gocrypt/contentenc/bpool.go"),("request coalescing","requester/")],
  observe=["every reply, against a model of the volume"])
p("C17","The proxy is free of data races",
  "No execution of the proxy's code under concurrent client sessions, concurrent remote calls, failures and cache clears has two unsynchronised conflicting accesses to the same memory.",
  ["schedules"],"all schedules of concurrent sessions, requests and library calls",
  "The tests are not run under a race detector and only the requester is exercised concurrently.",
  ["requester/requester.go","requester/synccache.go","requester/makerequest.go","filetree/fastcache.go","filetree/filetree.go","gocrypt/contentenc/bpool.go","gocrypt/cryptocore/randprefetch.go","backend/pool.go","handlers/decrypt.go"],
  [("mutexes, channels, sync.Pool","requester, filetree, contentenc, cryptocore, backend")],observe=["Go race detector reports"])
p("C18","Only the configured user and password get in",
  "A client is admitted exactly if it presents the configured proxy user name together with the configured proxy password, compared in full; every other combination and every other authentication method is rejected. No SFTP request is served to a client that has not been admitted.",
  ["inputs","configurations"],"all user names, passwords and authentication methods",
  "main has no tests.",
  ["main.go"],[("PasswordCallback","main.go")],observe=["SSH authentication result at the client of the real binary"])
p("C19","The proxy talks only to a remote whose host key is known",
  "The proxy completes a connection, and presents its user name and key, only to a remote whose host key is recorded for that address in the configured known-hosts file; for an unknown, a different or a revoked host key it refuses, both at start-up and at every later reconnection. How the known-hosts file is interpreted (patterns, hashed hosts, markers) is the ssh library's.",
  ["configurations","histories"],"all known-hosts contents and remote host keys, at start-up and on reconnect",
  "main and backend have no tests.",
  ["main.go","backend/pool.go"],[("knownhosts HostKeyCallback","main.go")],observe=["authentication attempts seen by the remote"])
p("C20","An incomplete or invalid configuration is refused at start-up",
  "The proxy does not start serving unless every documented configuration field is present and non-empty and the files it names exist and hold what they should (a private key, known hosts); in particular it never runs with an empty proxy user name or password. Invalid JSON and a missing configuration file are refused too, and a complete configuration is accepted.",
  ["configurations"],"all subsets of missing, empty or dangling fields",
  "Tests call the validation with two broken configurations; nothing tests that the program applies it.",
  ["config/config.go","main.go"],[("Validate","config/config.go"),("start-up sequence","main.go")],observe=["exit status and listening socket of the real binary"])
p("C21","No client can disturb the service of other clients",
  "Whatever one client does (connects and stays silent, sends garbage, stops in the middle of a handshake, opens odd channels, sends malformed session requests, disconnects in the middle of a transfer), the proxy keeps running, and other clients can connect and have their requests answered correctly.",
  ["inputs","schedules","fault_sequences"],"all behaviours of other clients at each protocol stage",
  "main has no tests.",
  ["main.go","handlers/decrypt.go"],[("per-connection goroutines","main.go")],observe=["service seen by a well-behaved client while a hostile one is active"])
p("C22","A volume unlocks only with its password and an untampered config",
  "A volume configuration yields the master key it was created with when given the right password, and is refused for every other password (including the empty one), for any change to its wrapped key, salt or key-derivation parameters, for an unsupported format version, an unknown feature flag or a missing mandatory one, and for key-derivation parameters below the accepted minimum. A refused configuration never produces a usable file tree, and the proxy ends with an error instead of serving. The flags of an accepted one that select key derivation, content cipher and name encoding are honoured, and a volume with plaintext names, which is not supported, is refused rather than misread. A configuration created by the package has the flags and parameters asked for.",
  ["inputs","configurations"],"all passwords and all modifications of a configuration file",
  "Tests load four fixed files.",
  ["gocrypt/configfile/config_file.go","gocrypt/configfile/scrypt.go","gocrypt/configfile/feature_flags.go","filetree/filetree.go","gocrypt/cryptocore/cryptocore.go"],
  [("DecryptMasterKey","gocrypt/configfile/config_file.go"),("validateParams","gocrypt/configfile/scrypt.go"),("flag checks","gocrypt/configfile/config_file.go: Load")],observe=["key or refusal returned","usable tree or refusal from file tree initialisation"])
p("C23","Writing a volume configuration is atomic and durable",
  "When the process dies at any point while a volume configuration file is being written, or a write, sync, close or rename fails, the configuration path holds either the complete old or the complete new configuration, never a mixture or a partial file. The new content is synced before it replaces the old one, a failed write is reported as an error, and the written file is readable by its owner only.",
  ["crash_points","fault_sequences"],"all crash points and failing system calls during the write",
  "No test interrupts or fails a write.",
  ["gocrypt/configfile/config_file.go"],[("write to temporary file, sync, rename","gocrypt/configfile/config_file.go: WriteFile")],observe=["system calls","file content after the crash"])
p("C24","Content encryption is standard, reversible and never reuses a nonce",
  "Encrypting any sequence of non-empty blocks yields, at every block number, ciphertext in gocryptfs format that an independent implementation and the own decryption turn back into the same plaintext, also for block counts that are encrypted in parallel and under concurrent use; the header with the file ID is written and read in that format, and nothing else is accepted as one. No two encryptions ever use the same nonce, and merging a write into an old block gives the old bytes overlaid with the new ones.",
  ["inputs","schedules"],"all block contents, counts and positions, concurrent callers",
  "Tests cover offsets only, no encryption.",
  ["gocrypt/contentenc/content.go","gocrypt/contentenc/bpool.go","gocrypt/contentenc/file_header.go","gocrypt/cryptocore/nonce.go","gocrypt/cryptocore/randprefetch.go","gocrypt/cryptocore/hkdf.go","gocrypt/cryptocore/cryptocore.go"],
  [("EncryptBlocks","gocrypt/contentenc/content.go"),("random prefetcher","gocrypt/cryptocore/randprefetch.go")],observe=["ciphertext blocks, their nonces"])
p("C25","Name encryption is standard and reversible for every name",
  "Encrypting any valid file name of 1 to 255 bytes under any directory IV yields the name gocryptfs would store (hashed long names included) and decrypting a stored name gives back the original. Decrypting a string that does not decode to a correctly padded valid name fails, so that no result is empty, '.' or '..', or contains '/' or NUL; no string and no IV makes it panic.",
  ["inputs","configurations"],"all names, IVs, and arbitrary strings as stored names",
  "Tests check padding on a few names; decryption is not tested.",
  ["gocrypt/nametransform/names.go","gocrypt/nametransform/pad16.go","gocrypt/nametransform/longnames.go","gocrypt/nametransform/diriv.go"],
  [("EncryptName/DecryptName","gocrypt/nametransform/names.go"),("PKCS#7 padding","gocrypt/nametransform/pad16.go"),("hashed long names","gocrypt/nametransform/longnames.go")],observe=["returned names"])
p("C26","Block and size arithmetic is exact at every offset",
  "Splitting any plaintext or ciphertext byte range into blocks yields consecutive non-empty pieces that cover the range exactly once and lie within their blocks; the joint range of the pieces is block aligned and contains them. Plaintext and ciphertext sizes convert into each other without loss for every file length, and every offset maps to the block that contains it.",
  ["inputs"],"all 64-bit offsets, lengths and sizes below overflow",
  "Tests check a handful of ranges.",
  ["gocrypt/contentenc/offsets.go","gocrypt/contentenc/intrablock.go"],[("range and size conversion","gocrypt/contentenc/offsets.go, gocrypt/contentenc/intrablock.go")],observe=["returned blocks, offsets and sizes"])
p("C27","Secrets never reach outputs, errors or leftover files",
  "The gocryptfs passphrase, the proxy password, the SSH key passphrase and the volume master key never appear in the proxy's standard output, standard error, debug log, terminal echo, error messages sent to clients or errors returned by the library, whether start-up and requests succeed or fail. Opening a volume leaves no temporary file behind, on success or on failure.",
  ["histories","fault_sequences","configurations"],"all start-up outcomes and request histories",
  "No test looks at outputs or temporary files.",
  ["main.go","config/config.go","filetree/filetree.go","gocrypt/configfile/config_file.go","gocrypt/tlog/log.go","handlers/decrypt.go"],
  [("password read without echo","config/config.go"),("temporary config removed","filetree/filetree.go: Init"),("no key display off terminal","gocrypt/tlog/log.go")],observe=["process output","error strings","temporary directory"])
p("C28","SSH keys load with the right passphrase only, in at most three tries",
  "Loading the SSH key file gives a signer for exactly the key in the file when the key (in a format the ssh library reads: PEM, with or without PEM encryption, or unencrypted OpenSSH) is unencrypted or one of at most three passphrases asked for is right, and an error otherwise; an unencrypted key prompts for nothing, and a failing prompt ends the attempt at once. No key file content whatsoever makes loading panic.",
  ["inputs","histories"],"all key file contents and passphrase sequences",
  "Tests use one key and a few passphrase sequences.",
  ["config/config.go"],[("LoadSSHKey","config/config.go")],observe=["signer public key, prompts, errors"])
p("C29","AES-SIV content encryption authenticates and interoperates",
  "For every key, nonce, associated data and plaintext, opening what was sealed gives back the plaintext, appended to the caller's buffer, and the sealed bytes match RFC 5297. Opening anything else (a changed bit in nonce, associated data or ciphertext, a truncation, another key) fails and returns no plaintext, and concurrent use of one instance is safe.",
  ["inputs","schedules"],"all inputs and manipulations",
  "Tests use one vector per key length.",
  ["gocrypt/siv_aead/siv_aead.go","gocrypt/cryptocore/cryptocore.go"],[("Seal/Open","gocrypt/siv_aead/siv_aead.go")],observe=["returned bytes and errors"])
p("C30","Ended sessions and failed requests leave nothing behind",
  "When a client is gone, however it went (before, during or after authentication, with requests outstanding, orderly or by reset), the proxy lets go of everything it held for it: its socket is closed, its goroutines end, and no handle stays open at the remote, while the connections kept to the remote stay bounded. A session whose client ends its input is ended by the proxy as well, and sessions opened one after the other on one connection do not pile up, so resources do not grow with the number of clients served.",
  ["histories","fault_sequences"],"all ways a client can come and go, any number of times",
  "No test starts the server, and leaks show only after many sessions.",
  ["main.go","handlers/proxy.go","handlers/decrypt.go","backend/pool.go","backend/provider.go"],
  [("connection and session handling","main.go"),("request server closed after the session","main.go"),("remote files closed, connections returned","backend/provider.go, backend/pool.go")],observe=["sockets of the process","goroutine dump","open handles at the remote","channel close"])
p("C31","Keys are separate per purpose and instance, and unusable after wiping",
  "Every cipher instance uses exactly the keys that its own master key and flags prescribe, whatever other instances exist, are used concurrently or are wiped: it neither changes nor keeps referring to the key buffers passed in, content and names use different keys when HKDF is on, nothing encrypted under one key is accepted under another, keys of wrong length are refused, and a wiped instance gives up its ciphers and encrypts and decrypts no content any more. All random values (nonces, file IDs, salts, master keys) are fresh: never repeated, never overlapping, never constant.",
  ["inputs","schedules","histories"],"all keys, instance combinations and orders of use and wiping",
  "Tests create one instance at a time and never look at keys.",
  ["gocrypt/cryptocore/cryptocore.go","gocrypt/cryptocore/hkdf.go","gocrypt/cryptocore/nonce.go","gocrypt/cryptocore/randprefetch.go","gocrypt/siv_aead/siv_aead.go","gocrypt/configfile/scrypt.go","gocrypt/contentenc/file_header.go"],
  [("key derivation","gocrypt/cryptocore/cryptocore.go: New, gocrypt/cryptocore/hkdf.go"),("wiping","gocrypt/cryptocore/cryptocore.go: Wipe, gocrypt/siv_aead/siv_aead.go: Wipe"),("randomness","gocrypt/cryptocore/nonce.go, gocrypt/cryptocore/randprefetch.go")],observe=["ciphertexts and decryptions against an independent implementation","random values"])
p("C32","A slow remote call holds up only the requests that need it",
  "While remote calls for some objects take long, requests for other objects are served as long as a worker is free, whether cached or not, however many requests wait for the slow objects, and in whatever session they arrive, also several sessions of one client connection; a connection to the remote that takes long to set up holds up only the requests that need a new one. Cached items are served even when every worker waits for the remote, clearing the caches does not wait for the remote, and when the slow calls end, every request that waited for them returns with its own result.",
  ["schedules","histories"],"all combinations of slow calls, waiting requests and later requests",
  "Tests' fake remotes answer at once.",
  ["requester/makerequest.go","requester/requester.go","requester/synccache.go","filetree/filetree.go","filetree/fastcache.go","backend/pool.go","backend/provider.go"],
  [("no lock held across remote calls","requester/requester.go: performRequestAndCache"),("caches","requester/synccache.go, filetree/fastcache.go")],observe=["completion of requests while chosen remote calls are held"])
p("C33","A session lasts until its client ends it",
  "Once admitted, a client is served for as long as it stays: however long its session lasts or is idle, however many requests it makes, however many files and directories it holds open at the same time, however many sessions it opens on one connection, and however slowly it takes the replies, every request is answered, correctly, and every open handle goes on delivering the content of the file it was opened on. Idle times, of the client or of the connections kept to the remote, lead to no failure, and neither do requests served before: the proxy does not wear out.",
  ["histories","inputs"],"all histories of a session, of any length",
  "No test starts the server, and limits of time or number show only in long sessions.",
  ["main.go","handlers/proxy.go","handlers/decrypt.go","requester/requester.go","requester/makerequest.go","backend/pool.go","backend/provider.go"],
  [("connection and session handling","main.go: handleConn"),("open files","handlers/decrypt.go"),("workers","requester/requester.go: worker"),("kept connections","backend/pool.go")],observe=["replies of long sessions on the program"])
p("C34","The pass-through handlers show the remote as it is",
  "A server built on the repository's pass-through handlers (ProxyHandler) shows the remote tree exactly as the remote has it: the names, sizes, permission bits and times of every directory's entries, the attributes of every object and the complete bytes of every file, for any number of sessions at once. When the remote refuses a request, or the connection to it is lost at any point of a read or of a listing, the client gets an error or the complete truth, never shortened data or a shortened listing; an object that the remote does not have is an error. Nothing that was opened at the remote for a request stays open after it.",
  ["inputs","faults","schedules"],"all remote trees, requests, refusals and points of connection loss, with several sessions at once",
  "No test exercises these handlers at all.",
  ["handlers/proxy.go"],
  [("reads","handlers/proxy.go: Fileread"),("listings and attributes","handlers/proxy.go: Filelist")],observe=["SFTP replies of a server with the pass-through handlers","files open at the recording remote"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
