#!/bin/sh
# keep.sh ID NAME: keeps the newest replay of ID as a regression case
mkdir -p /verif/regress/$1 && mv "$(ls -t /verif/replays/$1-*.json | head -1)" /verif/regress/$1/$2.json && rm -f /verif/replays/$1-*.json
