#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CORE = "xdvdfs-core/src/"
CLI = "xdvdfs-cli/src/"
FSD = "xdvdfs-fsd/src/"

p("C01", "Packing a directory stores exactly that directory tree",
  "Whenever packing a host directory (command line, extract-xiso create mode, or the library over any filesystem and block device) reports success, an independent reader of the image finds exactly the directories and files of the source, under the same names, with byte-identical contents and sizes. "
  "This holds for every representable tree (which is never refused while the host works), whatever order the host lists entries in, however reads, writes and in-kernel copies are split or interrupted, and wherever an asynchronous operation suspends.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "all directory trees (depth, fan-out, names, sizes around sector and buffer boundaries) x host listing orders x benign I/O behaviour (short, interrupted, unsupported in-kernel copy) x suspension schedules x async/sync builds",
  "The end-to-end tests pack four small fixed trees on a well-behaved host; listing order, short I/O, suspension and sector-boundary layouts are never varied.",
  [CORE+"write/img.rs", CORE+"write/dirtab.rs", CORE+"write/avl.rs", CORE+"write/sector.rs", CORE+"write/fs/stdfs.rs", CORE+"blockdev.rs", CLI+"cmd_pack.rs", CLI+"exiso_compat.rs"],
  [("image writer", CORE+"write/img.rs: create_xdvdfs_image"), ("host directory source", CORE+"write/fs/stdfs.rs"), ("directory table writer", CORE+"write/dirtab.rs")],
  ["exit status of pack / extract-xiso -c", "bytes of the output image", "return value of create_xdvdfs_image"])

p("C02", "Every image written is a well-formed XDVDFS volume",
  "Every image reported as successfully written (pack, repack, build-image, compress, library) has a valid volume descriptor in sector 32; every directory table is a proper search tree, under ASCII-case-insensitive name order, in which every entry is reached by binary search from the first entry and also by a linear sector scan; no entry crosses a sector boundary. "
  "All file and directory extents lie inside the image, start after the descriptor, never overlap one another, directories are flagged as directories and files are not, and the image length is a multiple of 32 sectors. Nothing of a file that was at the output before is left in it.",
  ["inputs", "schedules"],
  "all representable trees, in particular directories whose tables span several sectors, every alignment of entries against sector ends, mixed-case and punctuation names, empty files and directories, every listing order",
  "Unit tests look at a handful of hand-made tables; sector-spanning tables, odd name lengths and tree shape for arbitrary insertion orders are not enumerated.",
  [CORE+"write/dirtab.rs", CORE+"write/avl.rs", CORE+"write/sector.rs", CORE+"write/img.rs", CORE+"layout.rs", CORE+"util.rs"],
  [("balanced search tree", CORE+"write/avl.rs"), ("sector alignment of entries", CORE+"write/dirtab.rs: sector_align, disk_repr"), ("extent allocation", CORE+"write/sector.rs")],
  ["bytes of the output image, parsed by an independent validator"])

p("C03", "Repacking an image preserves its contents",
  "Repacking any valid XDVDFS image, of any origin, layout (unbalanced trees, gaps, shared or scattered extents, either kind of padding, empty directories) and partition offset (raw, XGD1, XGD2, XGD3), with pack, with the library, or with extract-xiso rewrite mode, succeeds while the host works and yields an image holding exactly the same directories, names and file contents, at offset zero. "
  "The source partition is located by itself, and bytes outside the partition never leak into the result.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "all valid images (own and foreign layouts) x partition offsets x benign read splitting/interruption x suspension schedules",
  "Tests repack two images produced by the tool itself; foreign layouts, partition offsets and split reads are not exercised.",
  [CORE+"write/fs/xdvdfs.rs", CORE+"write/fs/mod.rs", CORE+"read.rs", CORE+"blockdev.rs", CLI+"cmd_pack.rs", CLI+"exiso_compat.rs"],
  [("image-backed source filesystem", CORE+"write/fs/xdvdfs.rs"), ("entry cache", CORE+"write/fs/mod.rs: PathPrefixTree"), ("partition probing", CORE+"blockdev.rs: OffsetWrapper")],
  ["bytes of the output image", "exit status"])

p("C04", "Unpack and copy-out reproduce the image contents on the host",
  "Whenever unpacking an image, copying a file or directory out of it, or extracting it in extract-xiso mode reports success, the destination holds exactly the selected files and directories (including empty ones) with byte-identical contents, and replaces rather than mixes with the contents of any file that was there before. "
  "This holds, and the command succeeds while the host works, for every valid image at every partition offset, for every way of spelling the path ignoring ASCII case and redundant slashes, and whether or not the host can duplicate descriptors or copy in the kernel.",
  ["inputs", "configurations", "fault_sequences"],
  "all valid images x selected paths and spellings x partition offsets x benign I/O behaviour (split/interrupted reads and writes, in-kernel copy unsupported, descriptor duplication failing)",
  "Tests unpack tool-made images on an ideal host: the descriptor-duplication fallback, split copies, offsets and foreign layouts are never reached.",
  [CLI+"cmd_unpack.rs", CLI+"exiso_compat.rs", CORE+"read.rs", CORE+"layout.rs", CORE+"blockdev.rs"],
  [("tree extraction", CLI+"cmd_unpack.rs: copyout_directory"), ("single file extraction", CLI+"cmd_unpack.rs: cmd_copyout")],
  ["files created under the destination", "exit status"])

p("C05", "Success is reported only when the complete output was stored",
  "If any host operation fails, the disk fills up, or a source file or image is truncated or removed while a pack, repack, build-image, compress, unpack or copy-out command runs, then the command either still produces the complete correct output or ends with a failure status and a message. "
  "In particular no command (and no library write operation) reports success after a write that did not reach the output, including the last buffered one, or after a source delivered fewer bytes than its recorded size.",
  ["fault_sequences", "inputs"],
  "every single and repeated host failure at every I/O operation of a command (open, read, write, seek, directory listing, metadata, create, copy), disk-full at every byte budget, truncation/removal of any source at any point",
  "No test makes an I/O operation fail or a source shrink.",
  [CLI+"cmd_pack.rs", CLI+"cmd_build_image.rs", CLI+"cmd_compress.rs", CLI+"cmd_unpack.rs", CLI+"main.rs", CLI+"exiso_compat.rs", CORE+"write/img.rs", CORE+"write/fs/stdfs.rs", CORE+"write/fs/xdvdfs.rs", CORE+"write/fs/sector_linear.rs"],
  [("error propagation", CORE+"write/img.rs: create_xdvdfs_image"), ("buffered output", CLI+"cmd_pack.rs: BufWriter"), ("exit status", CLI+"main.rs")],
  ["exit status", "output files after the process ended", "library return value"])

p("C06", "An interrupted pack never leaves a valid-looking incomplete image",
  "If the process of pack, repack or build-image is killed at any point, or the library's image writer (on a blank device) fails or is dropped at any point, then whatever is at the output is either not recognised as an XDVDFS volume or is the complete image with every file intact. "
  "For the commands this also holds when the output file previously contained a valid image.",
  ["crash_points", "inputs", "fault_sequences"],
  "every point between two host operations, and every byte inside a write, of every pack; every failing or abandoned block-device operation of the library writer; fresh and pre-existing outputs",
  "No test interrupts a pack; the guarantee rests on the descriptor being written after all data and on truncating old output first.",
  [CORE+"write/img.rs", CLI+"cmd_pack.rs", CLI+"cmd_build_image.rs", CLI+"exiso_compat.rs"],
  [("descriptor written last", CORE+"write/img.rs: create_xdvdfs_image"), ("output truncated on open", CLI+"cmd_pack.rs: cmd_pack_path")],
  ["bytes of the output file after a simulated kill"])

p("C07", "Sources are never modified and a rewrite never loses the only copy",
  "No command changes or deletes the files or image it reads from: packing refuses an output that is its own source or lies inside its source directory, under any spelling or symlink of the path that the host can resolve. "
  "An in-place rewrite (extract-xiso -r, with or without -D and -d) that is killed or hits an I/O error at any point leaves either the untouched original (under its name or its .old name) or a complete new image, deletes the original only with -D and only after the new image is complete, and when it succeeds leaves the new image where asked.",
  ["crash_points", "fault_sequences", "inputs", "configurations"],
  "every command and every aliasing of output onto source x every crash point and I/O failure of the rewrite sequence",
  "Tests never crash or fail a rewrite and check only the final listing of one successful run.",
  [CLI+"exiso_compat.rs", CLI+"cmd_pack.rs", CLI+"img.rs", CLI+"cmd_build_image.rs", CLI+"cmd_compress.rs"],
  [("rename before rewrite", CLI+"exiso_compat.rs: exiso_repack"), ("same-path and containment checks", CLI+"cmd_pack.rs: cmd_pack_path"), ("path canonicalisation", CLI+"img.rs: absolute_path")],
  ["state of the simulated host filesystem after exit or kill"])

p("C08", "All read interfaces report the same, correct contents",
  "For every valid image at every partition offset, listing a directory (by tree walk or sector scan), listing recursively, looking up a path (ASCII-case-insensitively, with redundant slashes), reading whole files, prefixes or ranges, printing info and computing file digests all agree with the image's actual contents: every entry exactly once, with its exact size and bytes, and absent paths reported as errors. "
  "The results do not depend on how device reads are split, interrupted or interleaved with other operations.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "all valid images (own and foreign layouts, multi-sector directories, both paddings) x paths and spellings x read ranges x partition offsets x suspension schedules and benign read behaviour",
  "Tests read a few tool-made images whose directories fit one sector through one interface at a time.",
  [CORE+"read.rs", CORE+"layout.rs", CORE+"util.rs", CORE+"blockdev.rs", CLI+"cmd_read.rs", CLI+"cmd_md5.rs", CLI+"cmd_info.rs", CLI+"img.rs"],
  [("tree walk, scan, path lookup", CORE+"read.rs"), ("file data access", CORE+"layout.rs: read_data, read_data_all, read_data_offset"), ("partition probing", CORE+"blockdev.rs: OffsetWrapper")],
  ["stdout of ls, ls --scan, tree, md5, info", "library return values"])

p("C09", "Damaged or hostile images end in an error, never a crash or a hang",
  "Given any bytes as an uncompressed image, also when reads of it fail (truncated, bit-flipped, or with directory pointers, sizes, names and extents set adversarially, including cyclic trees and directories containing themselves), every reading command and library read, unpack and repack finishes within a number of device operations bounded by the image, without panicking, aborting or looping. "
  "It either returns contents or a reported error.",
  ["inputs", "fault_sequences"],
  "all images derived from valid ones by truncation, bit flips and targeted corruption of every field of the descriptor and of directory entries, and cyclic structures x read failures at any point",
  "Tests contain no damaged image.",
  [CORE+"read.rs", CORE+"layout.rs", CORE+"blockdev.rs", CLI+"cmd_info.rs", CLI+"cmd_unpack.rs", CORE+"write/fs/xdvdfs.rs", CORE+"write/fs/mod.rs", CORE+"write/img.rs"],
  [("entry decoding", CORE+"read.rs: deserialize_dirent_node, DirentScanIter"), ("tree walks", CORE+"read.rs: walk_dirent_tree, file_tree, find_dirent")],
  ["exit status (panic status, signal) and number of I/O operations", "library return values"])

p("C10", "Extraction never touches anything outside the destination directory",
  "Whatever names an image contains (parent references, separators, absolute paths, empty names), unpack, copy-out and extract-xiso extraction create, overwrite or delete host files only inside the requested destination, also when host operations fail midway. "
  "An image with such names is refused or the offending entries are skipped; well-formed entries with unusual but harmless names are still extracted.",
  ["inputs", "fault_sequences"],
  "all images with entries or directories named with '..', '.', separators, absolute prefixes, empty or long names at any depth x host failures at any point",
  "Tests contain no image with hostile names.",
  [CLI+"cmd_unpack.rs", CLI+"exiso_compat.rs"],
  [("destination path construction", CLI+"cmd_unpack.rs: copyout_directory")],
  ["every create/write/mkdir/unlink/rename seen by the simulated host filesystem"])

p("C11", "The contents checksum depends on the logical contents and nothing else",
  "Two valid images with the same directories, names and file bytes have the same contents checksum whatever their layout, origin, partition offset, compression, or the way device reads are split or scheduled. "
  "While reads fail it is an error or the same value. Changing any byte of a file, adding, removing or renaming a file or directory, or swapping the contents of two differing files changes the checksum. "
  "The value is the SHA3-256 of every path (with a leading /, in byte order of the paths) followed by the bytes of the file, so checksums that people have published stay comparable.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "all pairs of layouts of the same tree, and all single edits of a tree x read splitting, suspension and failures at any point",
  "Tests compare a handful of fixed images; layouts from other tools, offsets and split reads are not covered.",
  [CORE+"checksum.rs", CORE+"read.rs", CLI+"cmd_read.rs"],
  [("sorted traversal and hashing", CORE+"checksum.rs: checksum")],
  ["stdout of the checksum command", "library return value"])

p("C12", "Compression is lossless and compressed images read like the original",
  "Whenever compress reports success on a directory or image, decompressing its output (split parts included) yields a well-formed image with exactly the source's directories, names and bytes. "
  "Every reading command gives the same answers on the compressed image as on an uncompressed one with the same contents, however reads are split or interrupted.",
  ["inputs", "fault_sequences", "configurations"],
  "all trees and images (file sizes around sector boundaries, compressible and incompressible data) x benign I/O behaviour x all reading commands",
  "Tests compress three fixed trees and read them back through one command on an ideal host.",
  [CLI+"cmd_compress.rs", CLI+"img.rs", CORE+"write/fs/sector_linear.rs", CORE+"write/fs/stdfs.rs", CORE+"write/fs/xdvdfs.rs"],
  [("sector-linear staging device", CORE+"write/fs/sector_linear.rs"), ("CSO block device", CLI+"img.rs: CSOBlockDevice")],
  ["bytes of the .cso output decoded independently", "stdout of the reading commands on it"])

p("C13", "build-image packs exactly the files its map rules select",
  "For every rule set without conflicting targets, build-image produces an image containing exactly the host files and directories selected by the rules (earlier rules first, negated rules excluding, a matched directory bringing its whole subtree), each at its rewritten path with identical bytes, independent of host listing order and of whether rules come from flags or a spec file. "
  "A dry run prints exactly the mapping a real run packs and creates nothing, and a spec generated from flags behaves like those flags.",
  ["inputs", "configurations", "fault_sequences"],
  "all host trees x rule sets (literals, *, **, ?, alternatives, captures {n}, negation, nested targets) x listing orders x benign I/O behaviour",
  "Tests cover a few fixed rule lists on in-memory listings in one order.",
  [CORE+"write/fs/remap.rs", CORE+"write/fs/mod.rs", CLI+"cmd_build_image.rs"],
  [("remap overlay", CORE+"write/fs/remap.rs: RemapOverlayFilesystem"), ("path trie", CORE+"write/fs/mod.rs: PathPrefixTree"), ("spec parsing", CLI+"cmd_build_image.rs")],
  ["bytes of the output image", "stdout of a dry run", "host filesystem state"])

p("C14", "Mounted files return exactly their bytes for every read",
  "For every file of a mounted image, every read request at any offset and length, in any order and interleaved with any other requests, returns exactly the bytes of that range, shortened only at the end of the file and empty at or beyond it; reading a directory or opening a file for writing is refused. "
  "Reported sizes and file types match the image, at every partition offset, and never depend on request history.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of lookup, getattr, open, read, readdir, forget, release requests x images x offsets/lengths around sector, buffer and end-of-file boundaries x benign read behaviour",
  "The daemon has no tests.",
  [FSD+"img_fs.rs", CORE+"layout.rs", CORE+"blockdev.rs"],
  [("read request", FSD+"img_fs.rs: Filesystem::read"), ("ranged file access", CORE+"layout.rs: read_data_offset")],
  ["reply bytes on the simulated FUSE device"])

p("C15", "Mounted directories list every entry once, with stable inode numbers",
  "Enumerating any directory of a mounted image, with any reply buffer sizes, any interleaving with other requests and any restart offset, yields '.', '..' and every entry exactly once with its right type. "
  "A file or directory keeps one inode number for the life of the mount, the same whether learned by lookup (in any ASCII case) or by enumeration, and distinct objects have distinct numbers; looking up a name that does not exist says so.",
  ["histories", "inputs"],
  "all directories (empty, one entry, several sectors, long names) x reply buffer sizes x resume offsets x interleavings with lookups and reads",
  "The daemon has no tests.",
  [FSD+"img_fs.rs", CORE+"read.rs"],
  [("readdir cursor", FSD+"img_fs.rs: Filesystem::readdir"), ("inode cache", FSD+"img_fs.rs: FuseFilesystemCache")],
  ["replies on the simulated FUSE device"])

p("C16", "The mount answers every request exactly once and survives I/O errors",
  "Every request sent to the mount is answered exactly once, with an answer in the protocol's format, whatever happens to reads of the image underneath; a failing image read makes only the affected request fail with an I/O error, never returns wrong data, and the same request succeeds once reads work again. "
  "The daemon does not exit, panic or hang because of an image read failure or an unsupported or stale request.",
  ["fault_sequences", "histories"],
  "all request sequences x all placements of image read failures, interruptions and truncations, bursts and recoveries, unknown inodes and unsupported operations",
  "The daemon has no tests and no test injects read failures.",
  [FSD+"img_fs.rs", FSD+"main.rs", CORE+"read.rs", CORE+"blockdev.rs"],
  [("error replies", FSD+"img_fs.rs"), ("request loop", FSD+"main.rs: mount_image_file")],
  ["replies on the simulated FUSE device", "exit status of the daemon"])

p("C17", "A failed or abandoned library operation leaves the handle usable",
  "After any library read or write operation fails with a device error or its future is dropped at a suspension point, repeating the operation on the same device, image or filesystem object gives the same result as if the failed or abandoned attempt had never happened, and an operation during which the device fails gives an error or the correct answer, never a different answer. "
  "Operations on independent handles interleaved on one executor do not affect one another.",
  ["schedules", "fault_sequences", "histories"],
  "all operation sequences over the library API x failure or cancellation at every device operation x interleavings of several tasks",
  "Tests only run operations to completion on in-memory data.",
  [CORE+"read.rs", CORE+"layout.rs", CORE+"blockdev.rs", CORE+"checksum.rs", CORE+"write/img.rs", CORE+"write/fs/xdvdfs.rs", CORE+"write/fs/remap.rs"],
  [("stateless reads", CORE+"read.rs"), ("entry cache of image-backed filesystem", CORE+"write/fs/xdvdfs.rs")],
  ["return values of repeated operations"])

p("C18", "Trees that the format cannot represent are refused, never altered",
  "If a source tree cannot be stored faithfully (names outside windows-1252 or too long, names equal ignoring ASCII case, files of 4 GiB or more, directory tables beyond the addressable size, entries that are neither files nor directories, undecodable names), packing, building and compressing fail with an error without panicking and without leaving a recognised image. "
  "Trees at the limits that can be represented are packed faithfully.",
  ["inputs", "fault_sequences", "schedules"],
  "all trees at and just beyond each limit, in every listing order, with and without host failures on the way",
  "Tests have one too-long-name case at most; limits and their neighbours are not covered.",
  [CORE+"write/dirtab.rs", CORE+"write/img.rs", CORE+"write/avl.rs", CORE+"layout.rs", CORE+"write/fs/stdfs.rs", CORE+"write/fs/mod.rs", CORE+"write/fs/remap.rs"],
  [("name encoding", CORE+"layout.rs: encode_name"), ("limits", CORE+"write/dirtab.rs, " + CORE + "write/img.rs"), ("duplicate detection", CORE+"write/avl.rs: insert")],
  ["exit status", "library return value", "output bytes"])

p("C19", "Progress reports match what is actually written",
  "A successful image write reports every directory (the root included) exactly once as a directory and every entry of every directory exactly once as an entry, each with the sector at which its data really starts in the finished image, announces totals whose sum equals the number of those reports, announces for each listed directory how many entries it has, and reports completion exactly once and last. "
  "A write that fails or is abandoned never reports completion.",
  ["inputs", "schedules", "fault_sequences"],
  "all trees x listing orders x suspension schedules x failures at every device operation",
  "No test looks at progress events.",
  [CORE+"write/img.rs", CLI+"cmd_pack.rs", CLI+"cmd_build_image.rs"],
  [("progress callbacks", CORE+"write/img.rs: create_xdvdfs_image")],
  ["progress callback history", "stdout of pack and build-image"])

p("C20", "The mount launcher reports success only once the mount is serving",
  "When the mount program is started in the background, the launching process ends successfully only after the image has been opened and the filesystem is mounted, and ends with a failure status if the image is invalid, unreadable, the mount point is unusable or mounting fails, whatever the order in which launcher and daemon run. "
  "The same failures are reported when it runs in the foreground, where it stays if asked to; the mount is made with the mount options that were given, and what is mounted is the image.",
  ["schedules", "fault_sequences"],
  "all relative schedules of launcher and daemon processes x failures of opening, reading, forking-side setup and mounting",
  "The daemon has no tests.",
  [FSD+"daemonize.rs", FSD+"main.rs"],
  [("readiness pipe", FSD+"daemonize.rs: Daemonize"), ("mount sequence", FSD+"main.rs: mount_image_file")],
  ["exit status of the launcher relative to the mount call"])

p("C21", "The desktop app's operations report success only for complete and right results",
  "The pack, unpack and compress commands of the desktop app return success only if the image or the extracted tree is complete and has exactly the contents of the source, whatever host operation fails, however full the disk is and however the source changes meanwhile; if they fail they return a message. "
  "On a valid source and a working host they succeed. They never panic, never change their source (whatever the spelling of source and destination), write only to the selected destination (an image with hostile file names cannot make them write elsewhere, compressed images go to the selected directory), and the progress they report for a successful operation matches what was written.",
  ["inputs", "fault_sequences", "crash_points"],
  "all trees and images x spellings of source and destination x failures at every host operation, disk limits, sources that change underneath",
  "The desktop app has no tests.",
  ["xdvdfs-desktop/src/pack.rs", "xdvdfs-desktop/src/unpack.rs", "xdvdfs-desktop/src/compress.rs"],
  [("commands", "xdvdfs-desktop/src/pack.rs: pack_image, xdvdfs-desktop/src/unpack.rs: unpack_image, xdvdfs-desktop/src/compress.rs: compress_image")],
  ["return value of the command", "files of the host", "progress events"])

p("C22", "The web app's operations report success only for complete and right results",
  "The pack, unpack and compress operations of the web app return success only if the selected file or directory then holds the complete image or tree with exactly the contents of the source, whatever operation of the browser's file system fails, however long each takes, in whatever order directories are listed, and however the source changes meanwhile; if they fail they return a message. "
  "On a valid source and a working browser they succeed, and files that were in the destination before do not show through. They never panic and never wait for ever. If an operation fails or the tab is closed, every file of the destination holds either what it held before, nothing, or its complete new contents. The progress reported for a successful operation matches what was written.",
  ["inputs", "schedules", "fault_sequences", "crash_points"],
  "all trees and images x delays of promises, listing orders x failures at every file system operation, quota limits, sources that change underneath, closing the tab at any operation",
  "The web app has no tests.",
  ["xdvdfs-web/src/ops/browser.rs", "xdvdfs-web/src/fs"],
  [("operations", "xdvdfs-web/src/ops/browser.rs: WebXDVDFSOps"), ("file system adapters", "xdvdfs-web/src/fs/mod.rs: WebFileSystem, FSWriteWrapper")],
  ["result of the operation", "files reachable through the selected handles", "progress callbacks"])

p("C23", "Every block device of the library is one flat array of bytes",
  "A read through any of the library's block devices (memory slices and boxed slices, readers and files, buffered readers and writers, boxed devices, a volume inside a larger device) that succeeds fills the whole buffer with exactly the bytes last written there, or there from the start, at that offset; a read that ends behind the device fails, whatever its offset, and never panics. "
  "A write that succeeds changes exactly its range (for a buffered writer once it is flushed), a write that fails changes nothing outside its range, and a write into memory never goes beyond its end. The length includes everything written. Short and interrupted host calls do not make operations fail.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of reads, writes, length queries and flushes x offsets and lengths around buffer, sector and device ends up to 2^64 x short, interrupted, failing and torn host operations and full disks",
  "Tests read and write a few in-memory buffers inside their bounds.",
  [CORE+"blockdev.rs"],
  [("devices", CORE+"blockdev.rs: BlockDeviceRead, BlockDeviceWrite, OffsetWrapper")],
  ["return values and buffers", "contents of the file or memory"])

p("C24", "Whatever it is asked to do, a program ends properly and explains a failure",
  "Whatever command line, map rules, specification file and paths they are given (names that are missing, empty, not UTF-8, too long, or name directories, pipes, dangling or looping links), and whatever host operation fails, the command line tools, the extract-xiso replacement and the mount program end by themselves without panicking or crashing, and if they do not succeed they say so in a message and a failure status. "
  "Commands that only read (listings, checksums, info, a dry run of build-image, listing with extract-xiso) change nothing on the host. Map rules that are not valid (a host path that is not a glob pattern, no image path) are refused and then nothing is changed, and no volume that ends up on the host is damaged.",
  ["inputs", "fault_sequences"],
  "all command lines x map rules and specification files x host paths of every kind x failures at every host operation",
  "Tests call library functions with sensible arguments; no test runs a program with bad ones.",
  [CLI+"main.rs", CLI+"cmd_build_image.rs", CLI+"exiso_compat.rs", CORE+"write/fs/remap.rs", FSD+"main.rs"],
  [("command line", CLI+"main.rs: run_command"), ("map rules", CORE+"write/fs/remap.rs: RemapOverlayFilesystem::new"), ("specification", CLI+"cmd_build_image.rs: BuildImageArgs")],
  ["exit status and messages", "files of the host"])

p("C25", "The pages of the app do what the user chose and show how it went",
  "However a user moves through the pages of the app (packing, unpacking, compressing), in whatever order buttons are pressed, dialogs answered or cancelled, inputs and outputs chosen again, and operations started, on one page or (in the browser) on several at a time: choosing an output starts exactly one operation, with the input and the output chosen last, and nothing else starts one. A button is there only when its choice makes sense, and asks for the kind of thing it is for. "
  "While an operation runs no button of its page can be pressed, the page says that it runs, and its progress is between nothing and all; when it has ended, the page shows success only if it succeeded (and then full progress), or its error message, and the user can go on from any step, also with the same choices. The page names what is chosen and nothing else as chosen. No history makes the app panic, wait for ever or lose an operation.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "all histories of presses, answers and cancelled dialogs x all interleavings with running operations x delays and failures of file system operations, quota limits, closing the app",
  "The pages have no tests.",
  ["xdvdfs-web/src/packing.rs", "xdvdfs-web/src/unpacking.rs", "xdvdfs-web/src/compress.rs", "xdvdfs-web/src/picker/mod.rs", "xdvdfs-web/src/picker/browser.rs", "xdvdfs-web/src/picker/tauri.rs", "xdvdfs-web/src/ops/tauri.rs"],
  [("pages", "xdvdfs-web/src/packing.rs: ImageBuilderWorkflow, xdvdfs-web/src/unpacking.rs: ImageUnpackingWorkflow, xdvdfs-web/src/compress.rs: ImageBuilderWorkflow"), ("file pickers", "xdvdfs-web/src/picker/mod.rs: FilePickerButton")],
  ["what is shown", "dialogs opened", "operations started", "files of the host"])

p("W01", "The shell around the pages works in every browser and web view",
  "The frame of the app (tabs, notice about unsupported browsers, colours) and its JavaScript glue work in the browsers and web views that are supported.",
  ["inputs"],
  "all browsers and web views",
  "The app has no tests.",
  ["xdvdfs-web/src/main.rs", "xdvdfs-web/src/picker/browser.js", "xdvdfs-web/src/ops/tauri.js"],
  [("shell", "xdvdfs-web/src/main.rs: App")],
  ["rendered pages"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
