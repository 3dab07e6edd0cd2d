property = 'C13'
needs = 'the encryption dictionary of an encrypted document is lost'
what_it_breaks = 'a document whose encryption dictionary cannot be found is extracted as if it were not encrypted'
edits = [
  ('pdf/parser.go',
   '\tif encrypt, ok := parser.trailer["Encrypt"]; ok {\n',
   '\tif _, ok := parser.trailer.GetDictionary("Encrypt"); ok {\n\t\tencrypt := parser.trailer["Encrypt"]\n'),
]
demo = r'''package main

func main() {
	data := build("/Root 1 0 R/Size 3/Encrypt 2 0 R/ID[(a)(a)]", obj{1, 0, "<</Type/Catalog/URI(\x01\x02)>>"})
	out, err := parse(data, "")
	check(err != nil && out["urls.txt"] == "" && out["raw.pdf"] == "", "extracted without decryption")
	finish(true, "")
}
'''
