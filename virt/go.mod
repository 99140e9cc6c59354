// This file only keeps the packages below out of the vsim module: they are
// compiled inside github.com/frk/gosql (as .../zzsim/...) through -overlay.
module virt

go 1.23.0
