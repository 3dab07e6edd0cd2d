property = 'C18'
needs = "an abnormality in an object that is read after another object's stream was resolved"
what_it_breaks = 'messages are held back while references are resolved, and stay held back after a stream was'
edits = [
  ('pdf/reference.go',
   '\t// revert offset\n\treference.parser.Seek(current_offset, io.SeekStart)\n\n\t// return the resolved object value\n\treturn object.Value\n',
   '\t// revert offset\n\treference.parser.hold(false)\n\treference.parser.Seek(current_offset, io.SeekStart)\n\n\t// return the resolved object value\n\treturn object.Value\n'),
  ('pdf/reference.go',
   '\tresolved_references[reference.Number] = nil\n',
   '\tresolved_references[reference.Number] = nil\n\treference.parser.hold(true)\n'),
  ('pdf/output.go',
   '\tDirectory string\n',
   '\tDirectory string\n\tquiet bool\n'),
  ('pdf/output.go',
   '\tif output.Errors != nil {\n',
   '\tif output.Errors != nil && !output.quiet {\n'),
  ('pdf/parser.go',
   None,
   '\n// hold stops or continues logging, objects are logged once, when they are extracted\nfunc (parser *Parser) hold(quiet bool) {\n\tif parser.output != nil {\n\t\tparser.output.quiet = quiet\n\t}\n}\n'),
]
demo = r'''package main

import "strings"

func main() {
	for i := 0; i < 20; i++ {
		out, err := parse(build("/Root 1 0 R/Size 9",
			obj{1, 0, "<</Type/Catalog/JS 2 0 R>>"}, obj{2, 0, stream("", "app.alert(1)")},
			obj{3, 0, "(a\\777)"}, obj{4, 0, "<</JS 2 0 R>>"}, obj{5, 0, "<</JS 2 0 R>>"}, obj{6, 0, "<0x>"}), "")
		check(err == nil && strings.Contains(out["errors.txt"], "octal") && strings.Contains(out["errors.txt"], "hex"), "abnormality not logged")
	}
	finish(true, "")
}
'''
