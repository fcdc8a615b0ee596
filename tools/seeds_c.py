from seeds_a import H
A = 'runtime/ply-runtime/container/Array.h'
S = 'runtime/ply-runtime/container/Subst.h'
HA = H + '''
static int live = 0;
struct It { int v; It() : v{0} { live++; } It(int x) : v{x} { live++; } It(const It& o) : v{o.v} { live++; } It(It&& o) : v{o.v} { live++; } ~It() { live--; v = -1; } void operator=(const It& o) { v = o.v; } };
'''
SEEDS = [
 dict(id='v09_erase_tail_overlap', property='V09', needs='erasing a range in the middle with more than 64 items after it', breaks='items after the erased range: at most 64 (or as many as were erased) move down',
      edits=[(A, '(this->numItems_ - (pos + count)) * sizeof(T)); // Underlying type is relocatable', 'ply::min(this->numItems_ - (pos + count), ply::max(count, 64u)) * sizeof(T)); // Underlying type is relocatable')],
      demo=H + 'int main() { Array<u32> a; for (u32 i = 0; i < 200; i++) a.append(i); a.erase(3, 2); for (u32 i = 0; i < 198; i++) CHECK(a[i] == (i < 3 ? i : i + 2)); return 0; }\n'),
 dict(id='v09_reserve_exact', property='V09', needs='an array whose size is exactly its capacity when items are inserted in bulk', breaks='insert reserves one item too few when the array is full',
      edits=[(A, '((details::BaseArray&) *this).reserve(this->numItems_ + count, (u32) sizeof(T));\n        memmove', '((details::BaseArray&) *this).reserve(this->numItems_ + (count > 1 ? count - 1 : count), (u32) sizeof(T));\n        memmove')],
      demo=H + 'int main() { Array<u32> a; for (u32 i = 0; i < 7; i++) a.append(i); a.reserve(8); CHECK(a.numItems() == 7); struct R { void* p; u32 n, c; }; CHECK(((R*) &a)->c == 8); a.insert(2, 2); CHECK(((R*) &a)->c >= 9); return 0; }\n'),
 dict(id='v09_shrink_skips_first', property='V09', needs='shrinking an array of items with destructors by more than one item', breaks='the first dropped item is never destructed',
      edits=[(A, 'if (numItems < this->numItems_) {\n            subst::destructArray(this->items + numItems, this->numItems_ - numItems);', 'if (numItems < this->numItems_) {\n            u32 first = numItems + (this->numItems_ - numItems > 1 && numItems > 0 ? 1 : 0);\n            subst::destructArray(this->items + first, this->numItems_ - first);')],
      demo=HA + 'int main() { { Array<It> a; for (int i = 0; i < 10; i++) a.append(i); a.resize(9); CHECK(live == 9); a.resize(4); CHECK(live == 4); } CHECK(live == 0); return 0; }\n'),
]
