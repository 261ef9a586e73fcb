note_ora="Held on the files and faults generated, which the evidence file counts; trusts archive/zip, encoding/xml and image/png of the standard library and the harness's own reader and generator of OpenRaster files. Black box through the exported API, no hooks."
C.update({
"C13":(MON+"offline comparison of decoded trees with the encoded ones over random layer trees","exploration",note_ora),
"C14":(MON+"strict independent reader as acceptance monitor of every file written","exploration",note_ora),
"C15":(MON+"pixel monitor of merged image and thumbnail against the flattened picture","exploration",note_ora),
"C16":(MON+"decoded trees compared with the descriptions of generated foreign files","exploration",note_ora),
"C17":(MON+"hostile workload with monitors for panics, termination, allocation, the error due and readable pixels","exploration",note_ora),
"C18":(MON+"fault injection at every write, read and stored byte with an error monitor","exploration",note_ora),
})
note_xcf="Held on the files, images, sources and faults generated, which the evidence file counts; trusts the harness's own generator and reader of XCF files and the stand-ins for limage's three missing dependencies (see DESIGN.md). Black box through the exported API, no hooks."
note_race="Held on the schedules that happened, which the race detector watched; other interleavings were not seen. "+note_xcf
C.update({
"C19":(MON+"offline comparison of decoded trees with the encoded ones over random layer trees","exploration",note_xcf),
"C20":(MON+"offline comparison of decoded styled characters with the encoded ones over random texts","exploration",note_xcf),
"C21":(MON+"strict independent reader and write-log checker as acceptance monitors of every file written","exploration",note_xcf),
"C22":(MON+"decoded trees compared with the descriptions of generated foreign files","exploration",note_xcf),
"C23":(MON+"differential monitor of deferred and eager decoding under random reading orders","exploration",note_xcf),
"C24":(MON+"hostile workload with monitors for panics, process death, termination, allocation, the error due and readable pixels","exploration",note_xcf),
"C25":(MON+"fault injection at every write, read, byte and length with an error monitor","exploration",note_xcf),
"C26":(MON+"differential monitor over kinds of readers and deliveries, under the race detector, with fault injection and a watchdog","exploration",note_race),
"C27":(MON+"reported configurations compared with descriptions, images and decoded layers","exploration",note_xcf),
"C28":(MON+"race detector under perturbed concurrent workloads, results compared with the sequential ones","exploration",note_race),
"C32":(MON+"foreign files of either format, taken through the other one, every layer and pixel compared after each step","exploration",note_xcf),
"C31":(MON+"images at and beyond the formats' limits, with a monitor that wants an error or a file that decodes to the image","exploration",note_xcf),
"C29":(MON+"deep snapshots around encodings, byte comparison of repeated encodings, generations compared","exploration",note_xcf),
})
