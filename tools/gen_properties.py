#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ROT = ["src/shim_rotate.c", "include/evfs/shim/shim_rotate.h"]
prop("C01", "A rotating log reads back as the unbroken newest run of what was appended",
 "A file kept in a rotating container and written only by appending always reads back as one contiguous run of bytes that ends with the most recently appended byte, and its reported size is the length of that run. Data is dropped only when the configured capacity (chunk size times number of chunks) is full, and then only as one whole chunk from the oldest end, so the file never exceeds its capacity and never loses more than is needed for the next chunk. Closing and reopening the file, or unregistering and registering the shim, at any point changes neither the bytes nor the size nor what is dropped next.",
 ["inputs", "histories", "configurations"], "every chunk geometry, every sequence of append sizes (including exact multiples of the chunk size), interleaved reads, size queries, reopens and remounts",
 "test_rotate writes one fixed log with one geometry and prints it; it never compares content with what was written and never reopens at a chunk boundary or after several wraps.",
 ROT, [("rotating write", "rotate__file_write"), ("chunk rollover and eviction", "append_new_chunk / evict_chunk"), ("chunk sequence discovery at open", "discover_chunk_sequence")],
 ["evfs_file_write / evfs_file_read / evfs_file_size through the rotate VFS", "file names and sizes in the container directory on the base VFS"],
 state=[("chunk sequence", "numbered chunk files whose generation flag marks where the ring wraps", "container directory")])
prop("C02", "A rotating log survives a crash at any point",
 "If the system stops at any point while a rotating log is being appended to, the log opens again after restart and reads back as one contiguous run of the appended bytes. Everything that was appended before the last successful sync or close is still there, except what rotation had dropped; a record being written at the crash may be partly present at the end. The reopened log accepts further appends and keeps all guarantees of an uninterrupted log.",
 ["crash_points", "histories", "fault_sequences"], "every base-filesystem operation as a crash point, with the interrupted write torn at any byte and unsynced file data lost, over histories that wrap the ring, with repeated crashes, including crashes during recovery",
 "No test crashes; power loss leaves zero-length or missing chunks at points only an operation-level fault can reach.",
 ROT, [("cleanup of zero-length chunks", "discover_chunk_sequence"), ("evict-before-create order", "append_new_chunk"), ("sync of the active chunk", "rotate__file_sync"), ("container creation", "init_rotate_container")],
 ["content, size and status of the reopened file", "chunk files on the base VFS"])
prop("C03", "I/O errors under a rotating log are reported and never corrupt it",
 "When the filesystem under a rotating log fails, short-writes or runs full during any operation, that operation terminates and either reports an error or a byte count that is exactly the number of bytes stored. No read ever returns bytes that were not written at that place in the file, a failed open leaves no handle and no lock behind. Once the faults stop, the log is still a contiguous run of what was reported as written, and it can be appended to and reopened.",
 ["fault_sequences", "histories"], "every base operation failing (error, short count, disk full, failed open, delete, directory scan, seek, sync) at any position in an append/read/reopen history",
 "Tests run on a healthy filesystem only; every error path in the shim is unexecuted.",
 ROT, [("write loop over chunks", "rotate__file_write"), ("read loop over chunks", "rotate__file_read"), ("rollover", "append_new_chunk"), ("directory scan at open", "discover_chunk_sequence")],
 ["return values of evfs_file_write / evfs_file_read / evfs_open", "content after faults stop"])
prop("C04", "Seeking, overwriting, truncating and trimming a rotating log match one flat file",
 "Seen through an open handle, a rotating log behaves like one flat file for seek, tell, end-of-file, read, overwriting in place, truncation to a smaller size and writing past the end, regardless of where chunk boundaries lie. Trimming removes exactly as many whole chunks from the start as fit in the requested amount and reports the number of bytes removed. Overwriting existing bytes never changes the file size, and the result of any such history is the same after closing and reopening.",
 ["inputs", "histories", "configurations"], "every mix of seek origins and offsets, read and write sizes, truncate and trim amounts over any geometry, on append and non-append handles, with reopens",
 "The test appends and reads sequentially; it never overwrites across a boundary, and truncation and trim are only exercised at one offset.",
 ROT, [("logical offset to chunk mapping", "get_chunk_pos"), ("truncate", "rotate__file_truncate"), ("trim", "trim_start_chunks")],
 ["evfs_file_* results through the rotate VFS"])
prop("C05", "Rotating containers stay distinct from ordinary files and keep their geometry",
 "Under the rotate shim ordinary files and directories of the base filesystem behave exactly as without the shim, and each rotating file is independent of every other. A container keeps the geometry it was created with after the shim's settings change and across remounts, cannot be listed as a directory through the shim, and deleting it removes it completely while renaming it carries its content along. Failures of the filesystem below change none of this: a container is not taken for a directory, and a delete that failed can be repeated. Files that are not its own in a container's directory are ignored, a container whose stored geometry is damaged is refused, and invalid geometry settings are refused and leave the settings unchanged.",
 ["histories", "configurations"], "every interleaving of operations on several containers, ordinary files and directories, with configuration changes, deletes, renames and remounts between them",
 "The test uses a single container with one configuration and no ordinary file next to it.",
 ROT, [("container detection", "is_rotate_file"), ("pass-through", "rotate__open (base-file branch)"), ("settings", "set_rotate_config"), ("delete", "clear_container")],
 ["evfs_open/stat/delete/rename/open_dir through the shim compared with the base VFS"])

JAIL = ["src/shim_jail.c", "src/evfs_path.c"]
prop("C06", "Nothing done through a jail can touch anything outside its root",
 "Whatever path or current directory is used with a jailed filesystem, every operation reaches only the jail's root directory and what lies below it: no other file or directory is read, listed, created, changed, renamed or deleted, and no path outside the root is even passed to the filesystem beneath. This holds for relative and absolute paths, any mix of separators, dot and dot-dot segments, overlong paths, root prefixes of the base filesystem, after any sequence of directory changes, for jails inside jails, and when the base filesystem reports errors.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every path string and every history of directory changes and operations, from several threads, with base failures",
 "test_jail tries a handful of fixed paths; escapes need unusual combinations of current directory, dot-dot and length.",
 JAIL, [("jail to real path mapping", "unjail_path / make_absolute"), ("jail current directory", "jail__set_cur_dir"), ("path normalisation", "evfs_vfs_path_normalize")],
 ["every path the base VFS receives", "base tree outside the jail root before and after"])
prop("C07", "Inside a jail the root directory behaves as a complete filesystem of its own",
 "A jailed filesystem shows exactly the content of its root directory as its own tree with its own current directory: every operation has the same result as the same operation on a standalone filesystem holding that content. Its current directory starts at the jail root, always reads back as a jail path, is independent of the base filesystem's and other jails' current directories, and a failed directory change leaves it as it was. A dot-dot at the jail's root stays at the root, and names that merely begin with dots are ordinary names.",
 ["inputs", "histories", "schedules"], "every operation history over relative and absolute jail paths, with directory changes on the jail, on a second jail and on the base filesystem in between",
 "test_jail checks a few listings and one directory change; no comparison with a reference filesystem is made.",
 JAIL, [("path mapping", "unjail_path"), ("current directory", "jail__get_cur_dir / jail__set_cur_dir"), ("normalisation", "evfs_vfs_path_normalize / evfs_vfs_path_absolute")],
 ["results of all evfs_* calls through the jail against a reference tree"])
prop("C08", "Tracing a filesystem never changes what its operations do or return",
 "Every call made through the trace shim reaches the traced filesystem as exactly that one call with the same arguments and returns exactly the same status, counts, data and directory entries as the untraced call would, including every error the traced filesystem reports and every kind of file and directory operation. Its trace output names the operation made, the file or path and the numbers it was made with, and its result, and goes only through the reporting function that was given. Other shims stacked above or below a trace shim see no difference either.",
 ["histories", "fault_sequences", "configurations"], "every sequence of file, directory and control operations, with every base call able to fail, traced and untraced",
 "No existing test compares traced with untraced behaviour; error paths of the traced filesystem never run.",
 ["src/shim_trace.c"], [("forwarding methods", "trace__*"), ("registration", "evfs_register_trace")],
 ["call log of the base VFS", "return values and buffers of all evfs_* calls"])

TAR = ["src/tar_fs.c", "src/tar_iter.c", "include/evfs/tar_common.h"]
prop("C09", "A mounted tar archive serves every stored file byte for byte",
 "Every regular file stored in a tar archive can be opened by its stored path, in absolute or relative form, and reads, seeks, tells, sizes, end-of-file and stat on it are those of exactly the stored bytes, regardless of how many files are open at once and how their operations interleave. Paths not in the archive are reported as missing. If reading the archive fails or comes up short, the operation reports an error or a correct shorter count, never wrong bytes, the handle's position then still matches the bytes delivered, and an archive whose index cannot be read - cut short, damaged, or of another format - is refused when it is mounted. Walking an archive with the public iterator visits every member once, in stored order, with its header, its size and the place of its data, and a failure or damage stops the walk with an error status instead of looking like the end.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every archive content (names with directory prefixes and maximum-length names, empty and block-sized files, any member order, non-file members), every interleaving of operations on several handles and read failures of the archive",
 "test_tar opens a few files of one archive one after another and never checks bytes under failure or interleaving.",
 TAR, [("index of archive members", "build_index / tar_iter_next"), ("shared archive handle", "tarfs__file_read (lock, seek, read)"), ("name lookup", "lookup_abs_path")],
 ["evfs_open/read/seek/stat through the tar VFS"])
prop("C10", "A tar archive held in memory behaves the same as one mounted from a file",
 "A tar archive registered from memory gives the same results for every operation as the same archive mounted from a file, and the stored bytes for every regular file. The memory address reported for an open file points at exactly that file's stored bytes inside the registered image. A damaged image is refused, and the in-memory iterator visits the same members at the same places as the one over a file.",
 ["inputs", "histories", "schedules"], "every archive and every operation history, executed side by side on both mounts",
 "The test for the in-memory variant reads one fixed archive.",
 ["src/tar_rsrc_fs.c", "src/tar_iter_rsrc.c"], [("in-memory index", "build_index / tar_iter_rsrc_next"), ("resource address", "tar_rsrc__file_ctrl")],
 ["evfs_* results of both mounts", "EVFS_CMD_GET_RSRC_ADDR"])
prop("C11", "A mounted Romfs image shows exactly the stored tree and file contents",
 "A Romfs image, mounted from a file or from memory, shows exactly the directories and files stored in it: every directory lists each stored entry once with its type and size, every file opens by its absolute or relative path and reads, seeks, tells, sizes and stats as exactly the stored bytes, and everything else is reported as missing. Directory changes work for every stored directory. This holds with any number of files and directory listings open and interleaved, and if reading the image fails the operation reports an error or a correct shorter count, never wrong data.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every image (nested and empty directories, long names, links, empty files), every interleaving over several handles and threads and every read failure",
 "test_romfs lists and reads one fixed image sequentially.",
 ["src/romfs_common.c", "src/romfs_fs.c"], [("image index", "romfs_build_index / scan_dir_tree"), ("lookup", "romfs_lookup_abs_path"), ("directory iteration", "romfs__dir_read"), ("file read", "romfs__file_read")],
 ["evfs_* results through the romfs VFS", "EVFS_CMD_GET_RSRC_ADDR for in-memory images"])
prop("C12", "Read-only filesystems refuse every change and never alter their medium",
 "On a tar or Romfs mount, and on any filesystem switched to read-only, every operation that would create, change, rename, remove or truncate something reports an error and has no effect. The medium underneath stays byte for byte unchanged and no write is ever attempted on it, whatever flags or operations are used. Reading keeps working while read-only is set, and switching it off again restores writing.",
 ["inputs", "histories", "configurations"], "every operation and every combination of open flags, on every read-only mount and on each backend with read-only toggled on and off at any point in a history",
 "Tests never attempt a mutation on these mounts.",
 ["src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/stdio_fs.c", "src/fatfs_fs.c", "src/shim_jail.c"], [("open flag checks", "tarfs__open / romfs__open"), ("read-only switch", "EVFS_CMD_SET_READONLY in stdio__vfs_ctrl / fatfs__vfs_ctrl")],
 ["status of every mutating call", "medium content and calls reaching it"])

prop("C13", "Threads using separate handles on one shared filesystem never disturb each other",
 "With thread support built in, threads that each use their own open files and directory listings on the same registered filesystem get exactly the results they would get running alone: no bytes, positions, names, sizes or errors of one thread leak into another's. This covers filesystems that share an image file, an index, a path buffer or a log container directory, and mixes of opening, reading, listing, looking up and closing.",
 ["schedules", "histories"], "every interleaving of two or more threads at every lock operation, base call and control-flow edge, for tar, Romfs, rotate, jail and trace mounts",
 "The tests are single-threaded even in the threaded builds.",
 ["src/tar_fs.c", "src/romfs_fs.c", "src/romfs_common.c", "src/tar_rsrc_fs.c", "src/shim_rotate.c", "src/shim_jail.c", "src/evfs_pthread.c", "src/evfs_c11_thread.c"],
 [("locks over shared image state", "LOCK/UNLOCK in romfs_fs.c and tar_fs.c"), ("shared path buffer lock", "SharedBuffer in shim_rotate.c")],
 ["results of every call in every thread against its sequential result"])
prop("C14", "No operation deadlocks or leaves a lock held, whatever fails inside it",
 "With thread support built in, every operation on every filesystem returns with no library lock still held by the calling thread, also when the path is too long or missing, the base filesystem fails or memory runs out. Consequently any later operation by any thread makes progress: no history of operations, failures and thread interleavings blocks forever. No lock is used after the filesystem owning it was unregistered, unlocked twice or left undestroyed.",
 ["schedules", "histories", "fault_sequences"], "every operation with every internal failure, followed by operations from the same and other threads",
 "Tests never take an error path in the threaded builds, which is where locks are leaked.",
 ["src/evfs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_rotate.c", "src/evfs_pthread.c", "src/evfs_c11_thread.c"],
 [("lock and unlock on every return path", "LOCK/UNLOCK, MAKE_ABS"), ("lock lifetime", "evfs__lock_init / evfs__lock_destroy")],
 ["lock ownership after every API call", "progress of all threads"])
prop("C15", "The filesystem registry stays consistent under concurrent registration and use",
 "Registered filesystems can be found by name until they are unregistered and never after; registering the same name again never creates a second entry. There is a default exactly when at least one filesystem is registered: the first one registered, then whichever was last asked to be the default, with another registered one taking over when the default gives up that role or is unregistered. Every operation given the name of a registered filesystem is carried out by that filesystem alone, and one without a name by the default. This holds for every interleaving of registering, unregistering, finding and using filesystems from several threads, and before initialisation registering is refused. When the program ends everything still registered is unregistered and nothing is left behind.",
 ["schedules", "histories"], "every sequence and thread interleaving of register, re-register, unregister, unregister-all, find, default-name and by-name operations",
 "Tests register each filesystem once at start-up from one thread.",
 ["src/evfs.c"], [("registration list", "evfs_register"), ("removal", "evfs_unregister / evfs_unregister_all"), ("default selection", "evfs_register / evfs__get_vfs")],
 ["evfs_find_vfs, evfs_default_vfs_name and which filesystem serves a call"])
prop("C16", "A copy reported as successful is complete and identical",
 "When copying an open file to a new file reports success, the new file exists with exactly the bytes of the source from its current position to its end, and the source is unchanged. If the destination already exists the copy is refused and the existing file stays as it was. Any read (a source that ends before its size included), write, disk-full, close or memory failure on either side makes the copy report an error and terminate, without leaking handles or memory, for any buffer size and with a supplied or an internally allocated buffer.",
 ["inputs", "fault_sequences", "configurations"], "every source size, start position, buffer size, pair of filesystems and position of a failing or short operation",
 "No test calls the copy function with a failing filesystem or a source not at its start.",
 ["src/evfs.c", "include/evfs.h"], [("copy loop", "evfs_copy_to_file_ex")],
 ["status and destination content"])
prop("C17", "Running out of memory at any allocation fails cleanly",
 "If any memory allocation fails during any call, that call reports a failure (or succeeds with the correct result), nothing crashes or touches memory it does not own, and no memory, open file or lock is left behind by the failed call. Everything opened or registered before stays usable with correct results, and once memory is available again the same call succeeds. A filesystem is never left registered in a state where it silently shows incomplete content.",
 ["fault_sequences", "histories"], "every allocation, singly and in bursts, in every registration, open, stat, listing, copy, print and directory operation of every filesystem",
 "Allocation never fails in the tests.",
 ["src/evfs.c", "src/romfs_common.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/shim_rotate.c", "src/shim_jail.c", "src/shim_trace.c", "src/fatfs_fs.c", "src/stdio_fs.c", "src/util/dhash.c"],
 [("allocation checks", "MEM_CHECK sites"), ("index growth", "dh_insert / dh_init")],
 ["status of the failing call, leak ledger, results of the retried call"])
prop("C18", "Every handle, memory block and base file is released exactly once",
 "After every file and directory opened through any stack of filesystems has been closed and every filesystem unregistered, no memory allocated by the library remains, no file or directory of the base filesystem is still open and no base handle was closed twice or used after closing. A failed open or registration releases everything it acquired. This holds for every history, including ones with base failures.",
 ["histories", "fault_sequences", "configurations"], "every history of opens, failed opens, operations, closes and unregistrations over every filesystem and stack of shims",
 "Leaks and double closes do not change the tests' output.",
 ["src/evfs.c", "src/shim_rotate.c", "src/shim_jail.c", "src/shim_trace.c", "src/tar_fs.c", "src/romfs_fs.c", "src/romfs_common.c", "src/fatfs_fs.c", "src/stdio_fs.c"],
 [("open and close pairing", "evfs_vfs_open / evfs_file_close"), ("unregister", "EVFS_CMD_UNREGISTER handlers")],
 ["allocation ledger and base handle ledger at the end of each run"])
FAT = ["src/fatfs_fs.c", "src/fatfs_image.c"]
prop("C19", "A FAT image behaves as an ordinary hierarchical filesystem",
 "A FAT filesystem in an image file supports creating, writing, appending, reading, seeking, truncating, renaming, deleting, listing and stat of files and directories with the results an ordinary filesystem would give, for several files open at once, within the limits of the image's capacity. Existing files are refused when a file must not exist, missing ones are reported missing, non-empty directories are not removed, and truncating to the current size or beyond does not lose data. The whole state is the same after unmounting and mounting the image again, and making an image never alters one that already exists.",
 ["inputs", "histories", "configurations"], "every operation history over nested paths with long names, interleaved handles, full volumes and remounts",
 "No FatFs program is among the repeatable tests; none checks content against a model.",
 FAT, [("method mapping", "fatfs__*"), ("image block device", "disk_read / disk_write in fatfs_image.c / fatfs_fs.c"), ("image creation", "evfs_fatfs_make_image")],
 ["evfs_* results through the FAT VFS against a reference tree"])
prop("C20", "Synced data on a FAT image survives a crash",
 "Data written to a file on a FAT image and then successfully synced or closed is still there, byte for byte, after the system stops at any later point and the image is mounted again, as long as that file was not changed afterwards. Creating, changing or deleting other files after that point never damages it. A successful sync is passed all the way to the filesystem holding the image.",
 ["crash_points", "histories", "fault_sequences"], "every write to the image as the crash point, with any unsynced suffix of image writes lost, over multi-file histories",
 "Nothing in the tests crashes or remounts.",
 FAT, [("sync propagation", "fatfs__file_sync / disk_ioctl CTRL_SYNC"), ("write ordering", "disk_write")],
 ["content of synced files after remount"])
prop("C21", "I/O errors under a FAT image are reported, never turned into wrong data",
 "When the file holding a FAT image fails to read, write, seek or sync, the affected operation on the FAT filesystem reports an error, or completes correctly without needing that access; it never reports success for data that was not stored and never delivers wrong bytes, a shortened listing or a missing file as if that were the stored state. Counts returned by reads and writes are exactly the bytes transferred. Failing to close or sync a file is reported.",
 ["fault_sequences", "histories"], "every access to the image failing or short at any position of a history",
 "The image never fails in the tests.",
 FAT, [("error translation", "translate_error"), ("block device", "disk_read / disk_write / disk_ioctl")],
 ["status and data of each call against the fault ledger"])
prop("C22", "The host filesystem wrapper behaves as the host does and reports its failures",
 "Files and directories used through the standard-library backend have the content, size, position, type and existence that the host's own calls show, for every combination of open flags, and every operation's outcome matches that of the corresponding host operation. When a host call fails or transfers less than asked, the operation reports an error or the correct smaller count, and the reported error distinguishes a missing file, an existing one, a full disk and a denied access where the host does. Failing to write out buffered data is reported by sync or close.",
 ["inputs", "histories", "fault_sequences"], "every operation history in a scratch directory, with every host call able to fail with any error code",
 "The tests use this backend only as a healthy base and never make a host call fail.",
 ["src/stdio_fs.c"], [("flag translation", "stdio__open"), ("errno translation", "translate_error"), ("method mapping", "stdio__file_*")],
 ["evfs_* results compared with direct host calls in the same directory"])
prop("C23", "Making a directory path creates exactly the missing directories or says why not",
 "Making a path reports success only if afterwards every component of that path exists as a directory, and it creates exactly the missing ones and nothing else. If a component exists as a file, a directory cannot be created or the path is invalid, it reports an error and changes nothing beyond the components created before the failing one. The caller's path text is left unmodified, repeated separators, trailing separators, relative and absolute forms are all accepted, and this holds on every filesystem and shim.",
 ["inputs", "histories", "fault_sequences"], "every path shape over every pre-existing tree, on base and jailed filesystems, with directory creation failing at any component",
 "The tests make one simple path.",
 ["src/evfs.c"], [("component walk", "evfs_make_path_range_ex")],
 ["status and tree before and after"])
prop("C24", "The littlefs wrapper maps every operation and error of littlefs faithfully",
 "Each file, directory and current-directory operation through the littlefs wrapper has the result an ordinary filesystem holding the same content would give, for every combination of open flags. Every error reported by littlefs reaches the caller as a failure of that operation, never as success or as the end of a listing, with no lock or memory left behind. A littlefs volume kept in an image file stores and returns every block at its own place, and each failure of the file holding it is reported.",
 ["inputs", "histories", "fault_sequences", "schedules"], "every operation history over a simulated littlefs, with every littlefs call able to fail with each of its error codes",
 "littlefs is not in the tests at all.",
 ["src/littlefs_fs.c", "src/littlefs_image.c"], [("method mapping", "littlefs__*"), ("error translation", "translate_error"), ("image device", "littlefs_image_read / littlefs_image_prog / littlefs_make_image")],
 ["evfs_* results through the littlefs VFS against a reference tree"])
prop("C25", "Directory listings, rewinds and pattern searches see each entry exactly once",
 "Reading a directory to its end on any filesystem or shim delivers every entry that exists throughout the scan exactly once, with the name, type and size it has, then reports the end and keeps reporting it. Rewinding starts the same listing again, and a pattern search returns exactly the entries whose names match, in listing order, then the end. An error while listing is reported as an error and is never mistaken for the end, and listings open at the same time do not affect each other.",
 ["inputs", "histories", "fault_sequences"], "every directory content, every interleaving of reads, searches, rewinds and closes on several open listings, with failures at any read",
 "The tests list a directory once and print it.",
 ["src/evfs.c", "src/stdio_fs.c", "src/romfs_fs.c", "src/fatfs_fs.c", "src/shim_jail.c", "src/shim_rotate.c", "src/shim_trace.c"],
 [("pattern search", "evfs_dir_find"), ("directory reads", "*__dir_read / *__dir_rewind")],
 ["sequence of entries delivered against the tree"])
prop("C26", "Printing to a file writes exactly the formatted text or reports how much failed",
 "Printing formatted text or a string to a file writes exactly the text the format describes at the file's position and returns its length, for any length of text. If memory runs out or the text cannot be formatted the call returns an error and nothing is written; if the file cannot take all of it, the call returns an error or the true number of bytes written.",
 ["inputs", "fault_sequences"], "every formatted length and every failing allocation or write",
 "The tests print short fixed strings on a healthy filesystem.",
 ["src/evfs.c"], [("formatted output", "evfs_file_printf / evfs__vmprintf"), ("string output", "evfs_file_puts")],
 ["return value and file content"])
prop("C29", "Calls that cannot be carried out are refused with an error and change nothing",
 "A call that cannot be carried out is refused and has no effect. An operation that a filesystem does not provide reports that it is not supported, on that filesystem itself and through any stack of shims, whenever and in whatever order it was registered, and so does a control command nobody knows, for filesystems and for files. A null path, name, handle, buffer or result pointer is reported as a bad argument, or as 'no' by functions that answer a question, and any use while nothing is registered reports that there is no filesystem. Open files and listings, the content, the current directory, the registered filesystems, the default and memory stay exactly as they were. Every error and command code has its own name.",
 ["inputs", "histories", "configurations"], "every subset of missing operations, every public function with each pointer missing, every filesystem and stack of shims, at any point of a history with files and listings open",
 "The tests only use complete filesystems with valid arguments.",
 ["src/evfs.c", "src/evfs_path.c", "src/stdio_fs.c", "src/fatfs_fs.c", "src/littlefs_fs.c", "src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c"],
 [("defaults for missing operations", "evfs_register / default__*"), ("argument checks", "PTR_CHECK sites"), ("no filesystem", "evfs__get_vfs"), ("control commands", "*__vfs_ctrl / *__file_ctrl")],
 ["status of every refused call", "content, positions, listings, registry and memory before and after"])
prop("C30", "What a filesystem says it knows about a file is true",
 "Every filesystem can be asked which fields of file information it fills, for looking up a path and for listing a directory, and every stack of shims over it gives the same answer. Each field it claims is true for every existing file and directory: the name, the type, the size, and the modification time, which is the time at which the content was last changed or stored, in any time zone, in and out of summer time and after any jump of the clock. Each field it does not claim is zero. A failure below is reported and never shown as wrong information.",
 ["inputs", "histories", "configurations", "clock", "fault_sequences"], "every tree, every history of changes, every clock and time zone, every filesystem and stack of shims, with failures at any call",
 "The tests print what they get and do not compare it, under one clock and time zone.",
 ["src/stdio_fs.c", "src/fatfs_fs.c", "src/fatfs_image.c", "src/littlefs_fs.c", "src/tar_fs.c", "src/tar_rsrc_fs.c", "src/romfs_fs.c", "src/shim_jail.c", "src/shim_trace.c", "src/shim_rotate.c", "src/evfs.c"],
 [("information by path", "*__stat"), ("information in listings", "*__dir_read"), ("time stamps on FAT", "get_fattime"), ("claimed fields", "*__vfs_ctrl, EVFS_CMD_GET_STAT_FIELDS / EVFS_CMD_GET_DIR_FIELDS")],
 ["each field against a model of the tree, the medium's own times and the simulated clock"])
prop("C27", "Path text operations follow their documented rules",
 "On every filesystem and stack of shims, with that filesystem's own form of a root, splitting, joining and normalising path text and making it absolute against the current directory give the documented result: base name, extension and directory name as Python's os.path gives them, with the root kept; joins with one separator where one is needed; normal form with a minimal root, single separators, no '.' and no '..' after a name; an absolute form that leads where the path led. This holds for every text, every number of segments, every output size and when the output replaces the input. Nothing is read or written outside the text and the output, a result that does not fit is reported as overflow and never cut short, one that fits is not refused, and a failure of the filesystem below or of memory is reported and never shown as a wrong path.",
 ["inputs", "histories", "configurations", "fault_sequences"], "every path text and buffer size, every current directory, every filesystem and stack of shims, with memory and the filesystem below failing",
 "The tests do not compare path results at all beyond printing a few.",
 ["src/evfs_path.c", "src/evfs.c", "src/util/range_strings.c", "src/fatfs_fs.c", "src/shim_jail.c", "src/shim_rotate.c", "src/shim_trace.c"], [("splitting", "evfs_path_basename, evfs_path_extname, evfs_vfs_path_dirname"), ("joining", "evfs_vfs_path_join"), ("normal form", "evfs_vfs_path_normalize, path_normalize_long"), ("absolute form", "evfs_vfs_path_absolute, path_absolute_from_rel_overlap"), ("roots and current directories", "*__path_root_component, *__get_cur_dir")],
 ["output text and status in exactly sized buffers against a reference implementation", "what the absolute form leads to"])
prop("C31", "A hash table keeps exactly the entries stored in it, also when it cannot grow",
 "Whatever sequence of storing, replacing, removing, looking up, iterating and reserving is carried out on a hash table, with text keys, number keys or keys whose hash values collide, and with values of any size, each key delivers the value last stored for it, missing and removed keys are reported missing, and the count and every iteration cover exactly the entries present, each once. An operation that gets no memory, reaches its storage limit or fills its fixed storage, or whose owner refuses the growth or the replacement, reports failure and leaves every entry as it was, and it fails for no other reason. A reservation that succeeds makes room for that many entries without further memory. Every value is passed to the destructor exactly once, with the key it was stored under, or handed to the caller that removes it. Nothing outside the given storage, keys and values is read or written, the caller's value object is not changed, and a freed table leaves no memory behind.",
 ["inputs", "histories", "fault_sequences", "configurations"], "every history of operations, every key kind, value size and storage configuration, with every allocation able to fail and every growth or replacement refused",
 "The tests use a table only as an archive index that is filled once and never fails to grow.",
 ["src/util/dhash.c", "src/util/search.c"], [("insertion and eviction", "dh__insert_ex"), ("growth", "dh__grow / dh__init / dh_reserve_capacity"), ("removal", "dh_remove"), ("lookup", "dh__find_bucket")],
 ["results, callbacks and memory of each call against a reference map"])
prop("C28", "Pattern matching and string ranges compute correct results",
 "Glob matching accepts exactly the names its pattern describes, and string-range formatting and slicing give the documented text and never exceed their buffers.",
 ["inputs", "programs"], "every pattern and name, every range operation",
 "The tests use these only through a few fixed demonstrations.",
 ["src/util/glob.c", "src/util/range_strings.c"], [("matching", "glob_match"), ("formatting", "range_cat_fmt")], ["function results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
