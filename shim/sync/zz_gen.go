// Code generated by genshim. DO NOT EDIT.

package sync
