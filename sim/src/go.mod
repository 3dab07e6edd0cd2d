module github.com/KarmaPenny/pdfparser

go 1.27.3

require golang.org/x/image v0.47.0
