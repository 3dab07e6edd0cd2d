property = 'C14'
needs = 'PNG paeth rows in which the distances to left and upper left are equal'
what_it_breaks = 'ties of the paeth predictor are resolved in the wrong order'
edits = [
  ('pdf/filters.go',
   '\t\t\t\t\tif p_left <= p_up && p_left <= p_up_left {\n',
   '\t\t\t\t\tif p_left <= p_up && p_left < p_up_left {\n'),
]
demo = r'''package main

import "github.com/KarmaPenny/pdfparser/pdf"

func main() {
	// last byte: left 20, up 5, upper left 10, so p = 15 is as far from left as from upper left and left wins
	raw := []byte{0, 10, 5, 4, 10, 0}
	got := pdf.ReversePredictor(raw, pdf.Dictionary{"Predictor": pdf.Number(15), "Columns": pdf.Number(2)})
	check(len(got) == 4 && got[2] == 20 && got[3] == 20, "paeth tie")
	finish(true, "")
}
'''
