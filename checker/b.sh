#!/bin/bash
cd /verif/checker && GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local go build -o /tmp/chk . 
