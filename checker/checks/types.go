package checks

import "go/token"

type tokenPos = token.Pos
