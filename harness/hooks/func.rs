// included in tinywasm
