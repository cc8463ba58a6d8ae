#!/bin/bash
# cases and seconds for a property and tier
case $1 in
P01) n=30000 ;;
P02) n=50000 ;;
P03) n=25000 ;;
P04) n=9000 ;;
P05) n=30000 ;;
P06) n=70000 ;;
P07) n=3600 ;;
P08) n=8000 ;;
P09) n=10000 ;;
P10) n=11000 ;;
P11) n=14000 ;;
P12) n=11000 ;;
P13) n=45000 ;;
P14) n=60000 ;;
P15) n=40000 ;;
P16) n=24000 ;;
P17) n=11000 ;;
P18) n=24000 ;;
P19) n=13000 ;;
P20) n=8500 ;;
P22) n=14000 ;;
P23) n=24000 ;;
P24) n=50000 ;;
P25) n=70000 ;;
P26) n=14000 ;;
P27) n=20000 ;;
P28) n=20000 ;;
P29) n=7000 ;;
P30) n=4500 ;;
P31) n=350 ;;
P32) n=22000 ;;
P33) n=7000 ;;
*) n=1000 ;;
esac
if [ "$2" = thorough ]; then
	echo "$((n * 30)) 780"
else
	echo "$n 120"
fi
