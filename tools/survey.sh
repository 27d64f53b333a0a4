#!/bin/bash
# survey.sh ID SCALE CHARS: development aid, lists failures without shrinking
VERIF_SCALE=$2 VERIF_SURVEY=$3 bash /verif/check.sh $1
