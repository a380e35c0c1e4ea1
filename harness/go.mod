module github.com/nginxinc/nginx-go-crossplane/verif

go 1.25

require github.com/nginxinc/nginx-go-crossplane v0.0.0

replace github.com/nginxinc/nginx-go-crossplane => /repo
