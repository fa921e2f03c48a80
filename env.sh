export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1
