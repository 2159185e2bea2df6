#!/bin/bash
# Runs the page's script on a small document.
exec node "$(cd "$(dirname "$0")" && pwd)/demo.js" server/template
