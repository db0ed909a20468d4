package main

import (
	"net/url"
	"reflect"
)

func urlQueryEscape(s string) string            { return url.QueryEscape(s) }
func urlPathEscape(s string) string             { return url.PathEscape(s) }
func urlQueryUnescape(s string) (string, error) { return url.QueryUnescape(s) }

func structTagGet(tag, key string) string { return reflect.StructTag(tag).Get(key) }
