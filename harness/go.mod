module verif.local/harness

go 1.24

require (
	github.com/edsrzf/mmap-go v1.0.0
	github.com/performancecopilot/speed/v4 v4.0.0
)

require (
	github.com/HdrHistogram/hdrhistogram-go v1.1.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/sys v0.0.0-20190412213103-97732733099d // indirect
)

replace github.com/performancecopilot/speed/v4 => /repo
