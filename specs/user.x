/* A protocol of a user of the library: what the shipped protocols do not use. */

const UMAX = 7;
const UODD = 5;

enum ucolor {
	URED = 0,
	UGREEN = 2,
	UBLUE = 3
};

typedef hyper uoff;
typedef unsigned hyper usize;
typedef string uname<UMAX>;
typedef string uline<>;
typedef opaque ublob<UODD>;
typedef opaque uempty<0>;
typedef opaque utag[UODD];
typedef int unums<UMAX>;
typedef hyper uoffs<>;
typedef unsigned int utriple[3];
typedef uname unames<UMAX>;
typedef uname upair[2];
typedef bool uflags<3>;

struct uscalars {
	int a;
	unsigned int b;
	hyper c;
	unsigned hyper d;
	bool e;
	ucolor f;
};

struct uzero {
	uempty a;
	string b<0>;
	int c;
	int d<0>;
};

struct utags {
	utag a;
	opaque b[1];
	opaque c[3];
	opaque d[4];
	ublob e;
	string f<>;
};



struct umaybe {
	uscalars *a;
	uline *b;
	bool *c;
	hyper *d;
};

union uchoice switch (ucolor c) {
case URED:
	uscalars red;
case UGREEN:
	unames green;
case UBLUE:
	void;
};

union usign switch (int n) {
case 7:
	uoff neg;
case 0:
	utags zero;
default:
	uline other;
};

union uknown switch (bool ok) {
case TRUE:
	umaybe val;
case FALSE:
	int err;
};

struct urec {
	uscalars s;
	unums n;
	uoffs o;
	utriple t;
	unames ns;
	upair p;
	uflags fl;
	uchoice ch<2>;

};

program UPROG {
	version UVERS {
		void UNULL(void) = 0;
		uscalars USWAP(uscalars) = 1;
		utags UTAGS(utags) = 2;
		uchoice UCHOICE(usign) = 3;
		urec UREC(urec) = 5;
		uoffs UOFFS(uknown) = 9;
	} = 3;
} = 0x20000100;
