#!/bin/bash
# Nothing to compile: checks that the interpreter and the libraries the checks need are there.
exec /opt/venv/bin/python -c "import lxml, rdflib, pyld, requests, link_header; print('setup ok')"
