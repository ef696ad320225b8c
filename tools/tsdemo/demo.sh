#!/bin/bash
# Runs the extension's code in a model of the editor through the steps of demo.cjs.
exec timeout 120 node "$(dirname "$0")/demo.cjs"
