from seeds_a import H
P = 'runtime/ply-runtime/filesystem/Path.cpp'
PH = H + """
#include <ply-runtime/filesystem/Path.h>
static const PathFormat posix{false}, win{true};
"""
SEEDS = [
 dict(id='v08_colon_root', property='V08', needs='a POSIX path whose first component is two bytes long and ends with a colon', breaks='the directory of a:/b is split as if a: were a drive',
      edits=[(P, 'if (path.left(prefixLen) == this->getDriveLetter(path)) {', "if (prefixLen == 0 || (prefixLen == 2 && path[1] == ':')) {")],
      demo=PH + 'int main() { auto r = posix.split("1:/b"); CHECK(r.first == "1:"); CHECK(r.second == "b"); auto w = win.split("C:\\\\x"); CHECK(w.first == "C:\\\\"); return 0; }\n'),
 dict(id='v08_hidden_ext', property='V08', needs='a hidden file in a directory', breaks='the whole name of .profile becomes its extension when it has a directory in front',
      edits=[(P, 'if (dotPos < 0 || dotPos == 0) {', 'if (dotPos < 0 || (dotPos == 0 && slashPos < 0)) {')],
      demo=PH + 'int main() { auto r = posix.splitExt("home/.profile"); CHECK(r.first == "home/.profile"); CHECK(r.second.isEmpty()); return 0; }\n'),
 dict(id='v08_double_sep_kept', property='V08', needs='converting a path with two separators in a row', breaks='only every first separator of a run is converted',
      edits=[(P, 'if (srcFormat.isSepByte(bytes[i])) {', 'if (srcFormat.isSepByte(bytes[i]) && !(i > 0 && srcPath[i - 1] == srcPath[i] && bytes[i - 1] != srcPath[i])) {')],
      demo=PH + 'int main() { HybridString r = posix.from(win, "a\\\\\\\\b/c"); CHECK(StringView(r.view()) == "a//b/c"); return 0; }\n'),
]
