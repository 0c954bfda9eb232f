package zzlib
