property = 'C04'
needs = 'an encryption dictionary whose Length is greater than 128'
what_it_breaks = 'the key length is not limited to the length of the hash, so the parse panics'
edits = [
  ('pdf/encryption.go',
   '\tif sh.length < 5 {\n\t\tsh.length = 5\n\t} else if sh.length > 16 {\n\t\tsh.length = 16\n\t}\n\n\t// get O\n',
   '\tif sh.length < 5 {\n\t\tsh.length = 5\n\t} else if sh.length > 16 && sh.v < 4 {\n\t\tsh.length = 16\n\t}\n\n\t// get O\n'),
]
demo = r'''package main

func main() {
	defer func() {
		if r := recover(); r != nil {
			finish(false, "panic")
		}
	}()
	data := build("/Root 1 0 R/Size 2/ID[(a)(a)]/Encrypt<</Filter/Standard/V 4/R 4/Length 256/P -4/O(0123456789abcdef0123456789abcdef)/U(0123456789abcdef0123456789abcdef)>>",
		obj{1, 0, "<</Type/Catalog>>"})
	_, err := parse(data, "")
	check(err != nil, "no error")
	finish(true, "")
}
'''
