import subprocess
props="""tag with zero ID|C10|zero tag ID was treated as absent by lookup, add, set and delete
replacing a tag by|C10|Set with a longer value overwrote the tags that follow
access, change and birth|C28|access, change and birth times were decoded as milliseconds though stored in 12 bytes
short reads of stream|C06|a reader returning fewer bytes than asked made header and table fields wrong
broken tags table causes|C05|a cut or corrupted table made Parse panic
open trusts to sizes|C05|header sizes were allocated and sliced without looking at the stream size
bounds of file are checked|C05|bounds were checked on other tags than those used at reading, with overflow
same file can be repeated|C05|one name was accepted twice when spelled with other slashes
package info is lost|C25|info of a package without files was lost on reopening; quick query followed unchecked offsets
access to file out of|C05|reading entries beyond the data file crashed (slice bounds, SIGBUS on the map)
ReadFile fails on empty|C01|ReadFile of an empty file failed; short reads were not noticed
type of directory entry|C08|DirEntry.Type had permission bits
name with leading slash|C24|a leading slash in a subdirectory view addressed another name
directories does not comply|C08|listing unsorted, no not-exist error, paging restarted, Stat on directories failed
directories of union are|C09|listing unsorted, page size ignored, duplicates
union panics on subdir|C09|Open of @pack/x on a union of subdirectories panicked
same file can be packed twice|C13|existence check was outside of the lock
Pop modifies|C14|SeqMap.Pop changed the map under the read lock
splitted package can be|C03|table and header of a split package were overwritten in place
tags table can not overlap|C05|table offset inside the header was accepted
new package takes entries|C02|Begin kept entries of the previously opened package
environment expansion loses|C20|characters were lost or added around partial patterns
directories with back slashes|C23|RenameDir ignored backslash spelling
packing of file from any|C01|PackFile of a non-OS file panicked
too large tag is silently|C27|Set with a value over 65535 bytes stored a truncated length
tagset with back slashes|C23|SetupTagset stored a key with backslashes that nothing could find
backslashes are kept in path tags|C23|path tags with backslashes were listed as names with backslashes
tags with unacceptable|C18|unacceptable tag names and values were dropped silently
too long tag values|C18|tag values over 65535 bytes were stored as others instead of being refused
numbers out of range|C18|negative, fractional and large numbers were stored as other values
name of tag at gettags|C18|key names of gettags differed from run to run
Lua package is unusable|C19|after a failed open the package object panicked on next calls
append damages package|C19|append of a split package with a wrong data path damaged the tags file
file put by Lua script with|C19|a file whose tags were rejected stayed listed without tags
automatic file ID|C18|autofid repeated IDs present in the package
path.match takes|C29|path.match arguments were taken in the other order than documented
path.enum fails on empty|C29|path.enum with a limit raised EOF on an empty directory
extract writes outside|C16|names with parent references were written outside of the destination
pack finishes package|C17|walk and packing errors were ignored and the package was finalized without the files
pack detects MIME|C17|content sniffing looked at zeros instead of the file
reading of closed mapped|C31|Read, ReadAt and Seek of a closed memory mapped file crashed the process
append after failed load|C19|after a failed load append wrote to the package loaded before by the table of the other and destroyed it
pack writes package into itself|C17|a destination inside of the source was packed into itself without end"""
log=subprocess.check_output("git -C /repo log --format='%h %s' --reverse",shell=True,text=True).splitlines()
out=["# known: property=<id> sig=<signature> <what>      genuine defects that are not repaired (none)","# fixed: property=<id> <commit> <what failed>"]
used=set()
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    m=[p for p in props.splitlines() if s[5:].startswith(p.split('|')[0])]
    assert len(m)==1,(s,m)
    k,i,w=m[0].split('|'); used.add(k)
    out.append(f"fixed: property={i} {h} {w}")
print([p for p in props.splitlines() if p.split('|')[0] not in used])
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
