//! Stand-in for the author's crate `spacemath`, which bugi depends on by path and which is not
//! available. Only the names bugi uses exist; their meaning is taken from how bugi uses them
//! (plain two-dimensional Euclidean geometry). It is trusted by the mesher, file and CLI checks.

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Orient {
    Negative,
    Positive,
    Zero,
}

pub mod two {
    use super::Orient;
    use std::ops::{Add, Div, Mul, Neg, Sub};

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Point {
        pub x: f64,
        pub y: f64,
    }

    impl Point {
        pub fn new(x: f64, y: f64) -> Self {
            Self { x, y }
        }
        pub fn mid(self, o: Point) -> Point {
            Point::new((self.x + o.x) / 2.0, (self.y + o.y) / 2.0)
        }
        pub fn norm(self) -> f64 {
            self.x.hypot(self.y)
        }
        pub fn to_unit(self) -> Point {
            let n = self.norm();
            Point::new(self.x / n, self.y / n)
        }
        pub fn dot(self, o: Point) -> f64 {
            self.x * o.x + self.y * o.y
        }
        pub fn cross(self, o: Point) -> f64 {
            self.x * o.y - self.y * o.x
        }
    }

    impl From<(f64, f64)> for Point {
        fn from(p: (f64, f64)) -> Self {
            Point::new(p.0, p.1)
        }
    }
    impl From<Point> for (f64, f64) {
        fn from(p: Point) -> Self {
            (p.x, p.y)
        }
    }
    impl Add for Point {
        type Output = Point;
        fn add(self, o: Point) -> Point {
            Point::new(self.x + o.x, self.y + o.y)
        }
    }
    impl Sub for Point {
        type Output = Point;
        fn sub(self, o: Point) -> Point {
            Point::new(self.x - o.x, self.y - o.y)
        }
    }
    impl Mul<f64> for Point {
        type Output = Point;
        fn mul(self, k: f64) -> Point {
            Point::new(self.x * k, self.y * k)
        }
    }
    impl Div<f64> for Point {
        type Output = Point;
        fn div(self, k: f64) -> Point {
            Point::new(self.x / k, self.y / k)
        }
    }
    impl Neg for Point {
        type Output = Point;
        fn neg(self) -> Point {
            Point::new(-self.x, -self.y)
        }
    }

    pub mod dist {
        use super::Point;
        pub trait Dist<T> {
            fn dist(&self, other: T) -> f64;
        }
        impl Dist<Point> for Point {
            fn dist(&self, other: Point) -> f64 {
                (*self - other).norm()
            }
        }
        impl Dist<Point> for super::Segment {
            fn dist(&self, p: Point) -> f64 {
                let d = self.b - self.a;
                let l2 = d.dot(d);
                let t = if l2 == 0.0 { 0.0 } else { ((p - self.a).dot(d) / l2).clamp(0.0, 1.0) };
                (self.a + d * t - p).norm()
            }
        }
    }

    pub mod intersect {
        /// What two figures have in common.
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub enum Intersection {
            Nothing,
            Something,
        }
        impl Intersection {
            pub fn is_zero(&self) -> bool {
                *self == Intersection::Nothing
            }
            pub fn is_nonzero(&self) -> bool {
                *self == Intersection::Something
            }
        }
        pub trait Intersect<T> {
            fn intersects(&self, other: &T) -> Intersection;
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Segment {
        pub a: Point,
        pub b: Point,
    }

    impl Segment {
        pub fn new(a: Point, b: Point) -> Self {
            Self { a, b }
        }
    }

    fn orient(a: Point, b: Point, c: Point) -> Orient {
        let d = (b - a).cross(c - a);
        if d > 0.0 {
            Orient::Positive
        } else if d < 0.0 {
            Orient::Negative
        } else {
            Orient::Zero
        }
    }

    impl intersect::Intersect<Segment> for Segment {
        fn intersects(&self, o: &Segment) -> intersect::Intersection {
            let between = |a: Point, b: Point, c: Point| {
                c.x >= a.x.min(b.x) && c.x <= a.x.max(b.x) && c.y >= a.y.min(b.y) && c.y <= a.y.max(b.y)
            };
            let (d1, d2) = (orient(self.a, self.b, o.a), orient(self.a, self.b, o.b));
            let (d3, d4) = (orient(o.a, o.b, self.a), orient(o.a, o.b, self.b));
            // segments on one line that lie apart have nothing in common, however their directions round
            let apart = |p: fn(Point) -> f64| {
                p(self.a).max(p(self.b)) < p(o.a).min(p(o.b)) || p(o.a).max(p(o.b)) < p(self.a).min(p(self.b))
            };
            if apart(|q| q.x) || apart(|q| q.y) {
                return intersect::Intersection::Nothing;
            }
            let hit = (d1 != d2 && d3 != d4)
                || (d1 == Orient::Zero && between(self.a, self.b, o.a))
                || (d2 == Orient::Zero && between(self.a, self.b, o.b))
                || (d3 == Orient::Zero && between(o.a, o.b, self.a))
                || (d4 == Orient::Zero && between(o.a, o.b, self.b));
            if hit {
                intersect::Intersection::Something
            } else {
                intersect::Intersection::Nothing
            }
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Circle {
        pub center: Point,
        pub radius: f64,
    }
    impl Circle {
        pub fn new(center: Point, radius: f64) -> Self {
            Self { center, radius }
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Triangle {
        pub a: Point,
        pub b: Point,
        pub c: Point,
    }
    impl From<(Point, Point, Point)> for Triangle {
        fn from(t: (Point, Point, Point)) -> Self {
            Self { a: t.0, b: t.1, c: t.2 }
        }
    }
    impl Triangle {
        pub fn dir(&self) -> Orient {
            orient(self.a, self.b, self.c)
        }
        pub fn circumradius(&self) -> f64 {
            let (u, v, w) = ((self.b - self.a).norm(), (self.c - self.b).norm(), (self.a - self.c).norm());
            u * v * w / (2.0 * (self.b - self.a).cross(self.c - self.a).abs())
        }
    }
}
