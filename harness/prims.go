package main

import "strings"

// The primitives a program can call and the argument counts each accepts.
const primArityText = `
! 1 != 2 % 2 * * + * - * -> >=1 / * < 2 <= 2 == 2 => >=1 > 2 >= 2 abandon 1 abs 1 acons 2|3 add-debug-on-entry
1 alist 1 alist? 1 and * any >=2 append * append! 2 append-bytes * append-bytes! * apply >=1 apply-slot >=3
apply-slot-super >=2 assoc 2 assq 2 assv 2 atom? 1 atomic 0|1 atomic-add! 2 atomic-compare-and-swap! 3
atomic-load 1 atomic-store! 2 atomic-swap! 2 begin * binary-and 2 binary-not 1 binary-or 2 bits->float 1
boolean? 1 bytearray->list 1 bytearray-to-list 1 bytearray? 1 caaaar 1 caaadr 1 caaar 1 caadar 1 caaddr 1
caadr 1 caar 1 cadaar 1 cadadr 1 cadar 1 caddar 1 cadddr 1 caddr 1 cadr 1 car 1 case >=1 cdaaar 1 cdaadr 1
cdaar 1 cdadar 1 cdaddr 1 cdadr 1 cdar 1 cddaar 1 cddadr 1 cddar 1 cdddar 1 cddddr 1 cdddr 1 cddr 1 cdr 1
ceiling 1 channel-read 1 channel-try-read 1 channel-try-write 2 channel-write 2 clone 1 close-channel 1
close-port 1 complement * cond * cons 2 cons* >=1 copy 1 debug 0 debug-on-entry 0 debug-on-error 0|1
debug-trace 0|1 define >=1 definition-of 1 defmacro >=1 dissoc 2 do >=2 drop 2 dump 0 eighth 1
environment-assign! 3 environment-assignable? 2 environment-assigned? 2 environment-bindings 1
environment-bound-names 1 environment-bound? 2 environment-definable? 2 environment-define 3
environment-has-parent? 1 environment-lookup 2 environment-lookup-macro 2 environment-macro-names 1
environment-parent 1 environment-reference-type 2 environment? 1 eof-object? 1 eq? 2 equal? 2 eqv? 2 error 1
eval 1|2 even? 1 every >=2 exec >=1 expand >=1 extract-byte 2 extract-bytes 3 fifth 1 filter 2 find 2
find-tail 2 find-top-level-environment 1 first 1 flatten 1 flatten* 1 float 1 float->bits 1 float? 1 floor 1
fold-left 3 fold-right 3 for-each >=2 fork >=1 format >=2 fourth 1 frame-keys 1 frame-values 1 frame? 1
function? 1 general-car-cdr 2 gensym 0|1 gensym-naked 0|1 get-slot 2 get-slot-or-nil 2 global-eval 1 has-slot?
2 head 1 if 2|3 inf? 1 integer 1 integer? 1 intern 1 intersection * interval 1|2|3 join 1 json->lisp 1 lambda
>=1 last-pair 1 left-shift 2 length 1 let >=1 let* >=1 letrec >=1 lisp->json 1 lisp-trace 0|1 list *
list->bytearray 1 list-directory 1|2 list-head 2 list-ref 2 list-tail 2 list-to-bytearray 1 list? 1 load 1
macro? 1 make-channel 0|1 make-frame * make-list 1|2 make-top-level-environment 1|2|3 map >=2 max 1 member 2
memp 2 memq 2 memv 2 millis 0 min 1 modulo 2 named-lambda >=1 nan? 1 negative? 1 neq? 2 newline 0|1 nil? 1
ninth 1 not 1 notnil? 1 notnull? 1 nth 2 null? 1 number->string 1|2 number? 1 odd? 1 on-error 2|3
open-input-file 1 open-output-file 1|2 or * pair? 1 pairlis 2|3 panic! 1 parse 1 partition 2 port? 1 positive?
1 pow 2 pred 1 proc-sleep 2 procedure-environment 1 profile 1|2 quasiquote 1 quit 0 quote 1 quotient *
random-byte 0 rassoc 2 read 1 reduce 3 reduce-left 3 reduce-right 3 remove 2 remove-debug-on-entry 1
remove-slot! 2 replace-byte 3 replace-byte! 3 reset-timeout 1 rest 1 restrict-environment 0 reverse 1
right-shift 2 schedule >=2 second 1 send >=2 send-super >=1 set! 2 set-car! 2 set-cdr! 2 set-nth! 3 set-slot!
3 seventh 1 sign 1 sixth 1 sleep 1 sort 2 str * string->number 1|2 string-capitalize 1 string-capitalize! 1
string-ci<=? 2 string-ci<? 2 string-ci=? 2 string-ci>=? 2 string-ci>? 2 string-downcase 1 string-downcase! 1
string-join 1|2 string-length 1 string-null? 1 string-prefix? 2 string-split 2 string-suffix? 2 string-trim
1|2 string-trim-left 1|2 string-trim-right 1|2 string-upcase 1 string-upcase! 1 string<=? 2 string<? 2
string=? 2 string>=? 2 string>? 2 string? 1 sublist 3 substring 3 substring? 2 succ 1 symbol? 1
system-global-environment 0 tail 1 take 2 tenth 1 the-environment 0 third 1 time 1 union * unless >=2 unquote
1 unquote-splicing 1 wake 1 when >=2 write 1|2 write-bytes 2 write-line * write-log * write-string 1|2 zero? 1
`

type primArity struct{ name, spec string }

var primArities = func() (r []primArity) {
	f := strings.Fields(primArityText)
	for i := 0; i+1 < len(f); i += 2 {
		r = append(r, primArity{f[i], f[i+1]})
	}
	return
}()
