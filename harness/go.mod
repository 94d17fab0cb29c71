module verif/harness

go 1.26

require (
	github.com/xeipuuv/gojsonreference v0.0.0-20180127040603-bd5ef7bd5415
	github.com/xeipuuv/gojsonschema v0.0.0
	pgregory.net/rapid v1.3.0
)

require github.com/xeipuuv/gojsonpointer v0.0.0-20180127040702-4e3ac2762d5f // indirect

replace github.com/xeipuuv/gojsonschema => /repo
