//go:build go1.21

package ticat

import (
	"github.com/innerr/ticat/pkg/core/execute"
	"github.com/innerr/ticat/pkg/core/model"
)

// VH gives the check's harness the parts of an instance.
func (self *TiCat) VH() (*model.Cli, *execute.Executor) { return self.cc, self.executor }
