#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Opening a tar shows exactly the tree the archive records",
 "For every well-formed tar archive made of files (sparse ones included), directories, symbolic links and global headers, the opened filesystem contains exactly the recorded entries plus the parent directories they imply (mode 0755), under the recorded names taken relative to the root (dotfiles, spaces, non-UTF-8 and long names included). Each entry has the recorded type, size, permission and set-id/sticky bits, owner, modification time, extended records and bytes; if a name is recorded more than once the last record wins. The result does not depend on the order in which directories and their contents are recorded.",
 ["inputs","histories"],"all sequences of archive entries (a history of appended records), all sizes, modes, owners, names",
 "The tests open about twenty fixed archives and look at a handful of their files; they never vary the order, nesting, repetition or naming of entries, and no fixture has a dotfile or an explicit directory whose metadata is checked.",
 ["tarfs/tarfs.go"],[("entry indexing loop","tarfs.Open"),("path normalisation","tarfs sanitizePath"),("implied parent directories","tarfs.Open"),("per-entry section of the archive re-parsed on open","tarfs.FS.Open")],
 ["tarfs.Open","FS.Open","FS.ReadDir","FS.Stat","FS.StatLink","DirEntry.Info"],
 [("dirents","last record seen per path","tarfs.Open"),("begin/size","byte range of an entry in the archive","tarfs.Open")])
p("C02","Links in tar archives resolve like on a POSIX filesystem",
 "In an opened tar archive a hard link, wherever it and its target are recorded and through any chain of hard links, has its own name and its target's type, metadata and bytes. A symbolic link is reported verbatim by ReadLink, described but not followed by StatLink, and followed by Open, Stat and ReadDir and as an intermediate path element exactly as POSIX does: relative targets start from the directory that really holds the link, absolute ones and '..' above the root from the archive's root. Dangling, cyclic and through-a-file links give an error and a hard link without target makes opening fail; nothing hangs or crashes.",
 ["inputs","histories"],"all placements of links and all link targets over a small namespace, all entry orders, all internal map iteration orders",
 "The tests follow two symlinks of one archive that both resolve to existing paths; no test has a relative target with '..', an absolute target reached through another link, a loop, or a hard link chain.",
 ["tarfs/tarfs.go","readlink_fs.go"],[("symlink-following lookup","tarfs resolve"),("hard link fix-up pass","tarfs.Open"),("non-following lookups","FS.ReadLink, FS.StatLink")],
 ["FS.Open","FS.Stat","FS.ReadDir","FS.ReadLink","FS.StatLink"],[("parent","directory that holds an entry","tarfs dirent")])
p("C03","A tar created from any filesystem reads back as that filesystem",
 "Creating a tar archive from any source filesystem of regular files, directories and symbolic links succeeds, and the archive, read back, has exactly the source's paths with their types, permission and set-id/sticky bits, owners (where the source reports them), modification times (to the nearest second; a source without a time reads as the epoch), link targets and bytes. Every directory is recorded before its contents, the root itself is not recorded, and the archive ends with a proper end-of-archive marker. What cannot be recorded (sockets, a link whose target the source cannot report) makes creation fail.",
 ["inputs","configurations"],"all source trees up to a size bound, all file sizes, modes, names, owners and times, every kind of source filesystem interface",
 "One test re-creates one archive from one source and compares a hash of file contents only: modes, owners, times, links and empty directories are not looked at.",
 ["tarfs/create.go","tarfs/tarfs.go"],[("walk and header conversion","tarfs.Create")],["tarfs.Create","tarfs.Open","archive/tar reader"])
p("C04","An EROFS image created from any filesystem reads back as that filesystem",
 "Creating an EROFS image from any source filesystem of regular files, directories and symbolic links succeeds whenever names fit 255 bytes and link targets are shorter than a block, and the image, opened, has exactly the source's paths with their types, permission and set-id/sticky bits, owners (where the source reports them), modification times (to the nanosecond; a source without a time reads as the epoch), link targets and bytes. This holds for every file size, directory size, entry name, and number and order of entries. Anything that cannot be recorded faithfully makes creation fail.",
 ["inputs","configurations"],"all source trees up to a size bound, all file sizes up to several blocks, all directory sizes and name lengths, every metadata-block layout state",
 "The one test re-creates one image and in fact hashes the source's contents again rather than the new image's; no test has an empty file, a name sorting before '.', a directory larger than a block, or checks any metadata.",
 ["erofs/writer.go","erofs/erofs.go","erofs/reader.go","erofs/constants.go","erofs/owner_unix.go"],[("two-pass layout","writer.firstPass"),("inline tail packing","writer.firstPass/writeMetadata"),("directory encoding","encodeDirents, splitIntoDirentBlocks")],
 ["erofs.Create","erofs.Open"],[("metaSize/dataSize","layout cursors","writer.firstPass")])
p("C05","Every image written is a well-formed EROFS image",
 "Every image that creation reports as complete satisfies the EROFS on-disk format, as judged without this library's reader: superblock magic, checksum, inode count, block count and root inode are right; every inode is slot-aligned, within the metadata area and overlaps nothing; inline data stays within its block; data blocks are in range and disjoint. Every directory has '.' and '..' leading to itself and its parent and strictly sorted unique names in each block and across blocks, with entry types matching the inodes. A regular destination file ends up exactly as long as the block count says.",
 ["inputs"],"all source trees up to a size bound and every layout boundary (file sizes, directory sizes, metadata-block occupancy)",
 "The tests read images back only through the library's own reader, which hides errors made consistently on both sides and everything the reader does not look at.",
 ["erofs/writer.go","erofs/reader.go","erofs/constants.go"],[("layout","writer.firstPass"),("superblock","writer.write, SuperBlock.checksum"),("directory blocks","encodeDirents")],["bytes written by erofs.Create"])
p("C06","Any valid EROFS image is read faithfully and lookups agree with listings",
 "For every valid EROFS image without compression, extended attributes or chunked files, whatever tool wrote it (any block size, compact or extended inodes, plain or tail-inlined data, any partition of a directory into blocks with any padding, shared inodes, any placement of inodes and root), listing a directory gives exactly its entries in order, and looking up a name succeeds exactly for the names listed. Each entry then has the type, permission and set-id/sticky bits, owner, size, link count, modification time and bytes its inode records.",
 ["inputs","configurations"],"all directory block partitions, layouts and block sizes over small trees; every present and absent name",
 "The tests read one image produced by mkfs.erofs with a few hundred short names in single-block directories.",
 ["erofs/reader.go","erofs/erofs.go"],[("binary search over dirent blocks","Inode.Lookup"),("listing","Inode.IterDirents"),("name decoding","Inode.getDirentName"),("inode decoding","Image.Inode")],["erofs.Open","Filesystem.ReadDir/Stat/Open","Image.Inode","Inode.Lookup"])
p("C07","Symbolic links in EROFS images resolve like on a POSIX filesystem",
 "In an opened EROFS image ReadLink reports a link's target verbatim, StatLink describes the link itself even below other links, and Open, Stat and ReadDir follow links, final or intermediate, exactly as POSIX does: relative targets start from the directory that really holds the link, absolute ones and '..' above the root from the image's root. Dangling and cyclic links and paths through a file give an error; nothing hangs or crashes.",
 ["inputs"],"all placements of links and all link targets over a small namespace",
 "The tests follow two links of one image; none reaches a link through a link to a directory elsewhere, through two links, or in a loop.",
 ["erofs/erofs.go","erofs/reader.go","readlink_fs.go"],[("path resolution","Filesystem.resolve"),("link reading","Inode.Readlink")],["Filesystem.Open","Filesystem.Stat","Filesystem.ReadDir","Filesystem.ReadLink","Filesystem.StatLink"])
p("C08","A damaged or unsupported EROFS superblock is refused",
 "Opening refuses an image whose magic is wrong, whose superblock is cut short, which requires any feature the library does not support, or whose block size is impossible. While the image declares a superblock checksum, every corruption of one or two bits anywhere in the checksummed block makes opening fail, and an undamaged image always opens.",
 ["inputs"],"every bit and pair of bits of the superblock, every block size value, every feature bit, every cut",
 "The tests open only one intact image.",
 ["erofs/reader.go"],[("superblock validation","Image.initSuperBlock"),("checksum","Image.verifyChecksum")],["erofs.Open","erofs.OpenImage"])
p("C09","Opening an ar archive shows exactly its members",
 "For every well-formed ar archive the opened filesystem lists exactly the archive's members in name order, each with the recorded name (dotfiles and 16-byte names included; one trailing slash tolerated), size, mode, owner, time and exact bytes, for every member size (odd and even), number and order of members; the last member of a repeated name wins and an unnamed table is not listed. A file that does not start with the archive signature, or a member header whose terminator or numeric fields are malformed, makes opening fail.",
 ["inputs","histories"],"all sequences of members over small pools of names, sizes and field values; every single-byte change of a header",
 "The tests open one archive with two 13-byte members.",
 ["arfs/arfs.go"],[("member loop","arfs.Open"),("header parsing","parseArEntry"),("signature","checkAr")],["arfs.Open","FS.ReadDir","FS.Stat","FS.Open"],[("offset","position of the next member header","arfs.Open")])
p("C10","An ar archive is created faithfully or not at all",
 "When creating an ar archive from a filesystem reports success, the archive read back (by this library and by an independent reader) has exactly the source's files with their names, bytes, permission bits, modification times (to the second) and owners (where the source reports them, including when the source is itself an ar archive), with every header exactly 60 bytes and every member padded to an even offset. Anything the format cannot hold (directories, links, devices, names over 16 bytes or with surrounding blanks, values wider than their field) makes creation fail instead of producing a different archive.",
 ["inputs"],"all sets of source files over small pools of names, sizes, owners, times, modes; all widths of each field",
 "One test re-creates one archive and compares a hash of contents; no test has an overflowing field, an odd name or a non-regular file.",
 ["arfs/create.go","arfs/arfs.go"],[("header formatting","writeArHeader"),("data and padding","writeArData")],["arfs.Create","arfs.Open","bytes written"])
p("C11","Malformed archives never crash, hang or exhaust the reader",
 "Whatever bytes are offered as a tar, EROFS or ar archive, opening it and then calling any operation on it (listing, stat, reading, following links) terminates with a result or an error: it never panics, never loops, never recurses without bound, and never allocates memory out of proportion to the archive and the data it describes.",
 ["inputs"],"every single-byte change, and every pair of extreme values in structural fields, of small archives that together use every feature; every link cycle",
 "The tests open only valid archives.",
 ["tarfs/tarfs.go","erofs/reader.go","erofs/erofs.go","arfs/arfs.go"],[("bounds checks","erofs reader"),("inode caching","erofs dirEntry.getInode"),("member size handling","arfs.Open"),("symlink recursion","resolve in tarfs and erofs")],["all public operations"])
p("C12","A cut-short archive is never passed off as complete",
 "If any suffix of a tar, EROFS or ar archive is missing, then every file the library still presents either reads back complete or its reading (or opening the archive) fails; no read ever ends cleanly with fewer bytes than the file's reported size. A tar or ar archive cut in the middle of a member's header record or data fails to open, and one cut between records shows all the members that are wholly there.",
 ["crash_points","inputs"],"every truncation point of small archives that together use every feature of each format",
 "No test truncates an archive.",
 ["tarfs/tarfs.go","erofs/reader.go","erofs/erofs.go","arfs/arfs.go"],[("data consumption at open","tarfs.Open"),("member reader","arfs Entry data"),("data reader","Inode.Data")],["Open and reading every file"])
p("C13","Read errors surface and do not poison an open archive",
 "If the underlying storage fails at any read, the operation in progress returns an error that carries the storage's error, or a result identical to the fault-free one; it never panics, never returns wrong or shortened data as complete, and never misreports an entry's type. Once the storage works again, repeating the operation on the same opened archive gives the fault-free result.",
 ["fault_sequences"],"every read position as a fault point (transient and persistent, with and without partial data) in a full script of operations, for each format",
 "The tests never inject an I/O error.",
 ["tarfs/tarfs.go","erofs/reader.go","erofs/erofs.go","arfs/arfs.go"],[("error propagation","all readers"),("inode cache","erofs dirEntry.getInode")],["every public operation under an io.ReaderAt that fails"])
p("C14","Creation reports every failure and releases what it opened",
 "If any write to the destination fails, or any listing, stat, open, read or link lookup on the source filesystem fails, or a source file yields more or fewer bytes than the size it reported, then creating a tar, EROFS or ar archive returns an error that carries the cause; success is reported only when the complete archive has been written. Every file opened on the source is closed by the time creation returns, on success and on failure.",
 ["fault_sequences","crash_points"],"every destination write and every source operation as a fault point, for each format and several trees; every size discrepancy",
 "The tests never inject a fault into creation.",
 ["tarfs/create.go","erofs/writer.go","arfs/create.go"],[("error propagation","Create in each package"),("final flush","tarfs.Create tw.Close")],["Create's result under failing io.Writer / io.WriterAt / fs.FS"])
p("C15","The in-memory filesystem behaves like its simple sequential model",
 "For every sequence of directory creations and file writes, each call succeeds or fails (with not-exist, exist or invalid) exactly as a plain tree of directories and files would, changes exactly what it should, and every later open, read, stat, listing, and view of a subtree shows exactly that tree. Writing an existing file replaces its contents but keeps its permissions; failing calls change nothing beyond parent directories already made, and never make later calls block.",
 ["histories"],"all operation sequences over a small namespace, to closure of the reachable states",
 "The one test runs a single sequence of six calls, with one failing write.",
 ["memfs/memfs.go"],[("tree updates","FS.MkdirAll, FS.WriteFile"),("lookups","FS.Open, FS.Sub")],["memfs.FS methods, file and directory handles"],[("children","directory contents","memfs dir")])
p("C16","Concurrent use of the in-memory filesystem is linearizable",
 "When several goroutines create directories, write files, open, read, stat and list on one in-memory filesystem (or on views of its subtrees) at once, every call returns, and the results are those of some order of the calls (directory creation taken one path element at a time) consistent with the order in which they happened. In particular no reader ever sees a partly written or momentarily empty file, and no call blocks forever.",
 ["schedules"],"all interleavings up to a preemption bound of 2-3 goroutines with 1-2 colliding operations each",
 "The tests are single-threaded.",
 ["memfs/memfs.go"],[("per-directory mutex","memfs dir.mu"),("publication of a file","FS.WriteFile/create")],["memfs.FS methods"],[("dir.mu/children","guarded directory contents","memfs dir")])
p("C17","One opened archive can be used by many goroutines at once",
 "Operations performed concurrently by several goroutines on one opened tar, EROFS or ar filesystem, including on shared directory entries and on separate handles to the same file, each return exactly what they return when performed alone, in every interleaving.",
 ["schedules"],"all interleavings up to a preemption bound of 2-3 goroutines using one opened archive",
 "The tests are single-threaded.",
 ["tarfs/tarfs.go","erofs/erofs.go","erofs/reader.go","arfs/arfs.go"],[("per-open readers over io.ReaderAt","FS.Open in each package"),("lazily read inode","erofs dirEntry.getInode")],["all read operations"])
p("C18","Every view of an entry agrees, as the io/fs contract demands",
 "On every filesystem of this module and every path in it, Open, Stat, StatLink, listing and directory entries agree on existence, name, type, size and mode; listings are sorted and free of duplicates; names that are absent give a not-exist error and listing a non-directory gives an error. Directories, the root included, can be opened, cannot be read as files, and can be listed in pages of any size that together give each entry once and then end-of-file. Reading a file in any sequence of buffer sizes, through any number of interleaved handles, yields exactly its bytes and then end-of-file, and does not change what Stat reports.",
 ["inputs","histories"],"all small trees in all four filesystems; all read-size and page-size sequences up to a bound; all interleavings of operations on two handles",
 "The tests check single calls on single paths.",
 ["tarfs/tarfs.go","erofs/erofs.go","arfs/arfs.go","memfs/memfs.go"],[("handles","file types of each package"),("directory entries","dirent, dirEntry, Entry"),("listing","ReadDir of each package")],["fs.FS, fs.ReadDirFS, fs.StatFS, fs.File, fs.ReadDirFile, ReadLinkFS"])
p("C19","What a caller holds and what the filesystem holds are isolated",
 "An open handle keeps showing the contents it was opened with whatever is written later; reading, closing or re-reading one handle never affects another handle or the filesystem. Contents given to the in-memory filesystem are copied: changing the caller's buffer afterwards, or writing into a buffer that was filled by a read, never changes any file. Listings already returned are not changed by later operations.",
 ["histories"],"all short sequences of write, mutate-buffer, open, read, close, list over two files and two handles",
 "The test passes literal byte slices and never touches them again, and holds one handle at a time.",
 ["memfs/memfs.go","arfs/arfs.go","tarfs/tarfs.go","erofs/erofs.go"],[("content ownership","memfs WriteFile and Open"),("handles","file types of each package")],["memfs.WriteFile, Open, File.Read/Close, ReadDir"])
p("C20","The same input always gives the same result",
 "Opening the same archive always gives the same view, and creating an archive from the same source always gives the same bytes, whatever the iteration order of internal maps, the sizes of the chunks in which the source delivers file data, whether storage reports end-of-file with or after the last bytes, and previous uses of the library in the process. Listing the same directory twice gives the same sequence.",
 ["inputs","configurations"],"all iteration orders of every internal map over small inputs; all chunkings of source data",
 "A test run sees one random iteration order per map and one chunking.",
 ["tarfs/tarfs.go","tarfs/create.go","erofs/writer.go","arfs/arfs.go","arfs/create.go","memfs/memfs.go"],[("sorting before use","ReadDir in each package"),("insertion-ordered inode list","erofs writer.inodeOrder")],["views and created bytes"],hook="map iteration order (substituted at build time by source instrumentation)")
p("C21","Nothing escapes the root of an archive",
 "Whatever names and link targets an archive contains ('..' elements, absolute paths, repeated slashes), every name a listing returns is a single non-empty path element other than '.' and '..', every path reached by walking is a rooted, cleaned io/fs path that opens by that path, and every link resolves inside the archive. An entry whose name climbs above the root is placed at the root or refused, never listed elsewhere and never makes unrelated entries unreachable.",
 ["inputs"],"all names and link targets of up to 4 elements over {.., ., empty, a, b} with and without leading slash, in archives of up to 3 entries",
 "No test archive has a name or target with '..' above the root.",
 ["tarfs/tarfs.go","arfs/arfs.go","erofs/erofs.go"],[("path normalisation","sanitizePath in tarfs and arfs"),("link resolution","resolve in tarfs and erofs")],["walks of opened archives"])
p("C22","Converting between formats preserves the tree",
 "An archive created from a filesystem opened from any other archive format of this module, or from the in-memory filesystem, reads back with the same paths, types, permission bits, link targets, bytes and, to the precision both sides record, modification times; owners are preserved when the source is a tar archive or an archive of the same format. Converting through any chain of formats gives the same as converting directly, and the directory hash of the files is unchanged.",
 ["inputs","configurations"],"all small trees through all chains of up to three conversions over tar, EROFS, ar (flat trees) and memory",
 "The tests convert each format once into itself and compare contents only.",
 ["tarfs/create.go","erofs/writer.go","erofs/owner_unix.go","arfs/create.go","internal/testutil/hashfs.go"],[("use of io/fs interfaces of the source","Create in each package"),("owner extraction","getOwner"),("directory hash","testutil.HashFS")],["Create then Open, for every pair of packages"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P: jsonschema.validate(d,s)
except ImportError: pass
for d in P:
    n=d["statement"].count(". ")+1
    assert len(d["title"])<=80,d["id"]
    if n>3: print(d["id"],"sentences",n)
print(len(P))
